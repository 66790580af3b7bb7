// Package sched picks schedule perturbations for the instrumented packages.
package sched

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/openconfig/gnmi/verifsched"

	"verifharness/vk"
)

// Points lists the positions of the schedule points; the ids start at 1.
var Points = load()

func load() []string {
	b, err := os.ReadFile(os.Getenv("VERIF_POINTS"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if f := strings.SplitN(l, " ", 2); len(f) == 2 {
			r = append(r, strings.TrimPrefix(f[1], "/repo/"))
		}
	}
	return r
}

// Off switches perturbation off.
func Off() { verifsched.Off() }

// Random perturbs one in n statements, with sleeps of up to d.
func Random(n int, d time.Duration) { verifsched.Random(uint32(n), d) }

// Pick chooses a perturbation at random and returns a description. Delays are
// around d.
func Pick(rnd *rand.Rand, d time.Duration) string {
	switch k := rnd.Intn(8); {
	case k == 0:
		verifsched.Off()
		return "none"
	case k == 1:
		verifsched.Random(uint32(2+rnd.Intn(20)), 0)
		return "yields"
	case k < 4 || len(Points) == 0:
		n := uint32(5 + rnd.Intn(200))
		verifsched.Random(n, d)
		return fmt.Sprintf("random 1/%d", n)
	}
	return Target(rnd, 1+rnd.Intn(len(Points)), d)
}

// Target delays some visits of point id.
func Target(rnd *rand.Rand, id int, d time.Duration) string {
	k, n := uint32(1), uint32(1)
	switch rnd.Intn(4) {
	case 0:
	case 1:
		k = uint32(1 + rnd.Intn(10))
	case 2:
		k, n = uint32(1+rnd.Intn(40)), uint32(1+rnd.Intn(4))
	case 3:
		n = uint32(1 + rnd.Intn(20))
	}
	verifsched.Target(uint32(id), k, n, d)
	where := "?"
	if id <= len(Points) {
		where = Points[id-1]
	}
	return fmt.Sprintf("delay %v at visits %d-%d of %s", d, k, k+n-1, where)
}

// Report counts what the perturbation did in this process.
func Report(r *vk.Run) {
	r.Count("perturbations", int(verifsched.Perturbed()))
	r.Count("max_schedule_points", len(Points))
	r.Count("max_schedule_points_reached", len(verifsched.Hit()))
}

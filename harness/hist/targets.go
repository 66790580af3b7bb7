package hist

import (
	"fmt"
	"math/rand"
)

// Targets returns some of the names, and now and then many more.
func Targets(rnd *rand.Rand, names ...string) []string {
	if rnd.Intn(20) == 0 {
		for i := range 3 + rnd.Intn(10) {
			names = append(names, fmt.Sprint("more", i))
		}
	}
	return names
}

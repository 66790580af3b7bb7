// Package procs starts the binaries of the repository as processes.
package procs

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/protobuf/encoding/prototext"

	tpb "github.com/openconfig/gnmi/proto/target"
)

// Certs are made once per process.
type Certs struct {
	Cert, Key string // files
	Pair      tls.Certificate
}

func MakeCerts(dir string) (*Certs, error) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, err
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(365 * 24 * time.Hour),
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback}, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		return nil, err
	}
	kd, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		return nil, err
	}
	c := &Certs{Cert: filepath.Join(dir, "cert.pem"), Key: filepath.Join(dir, "key.pem")}
	cp := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	kp := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
	if err := os.WriteFile(c.Cert, cp, 0o600); err != nil {
		return nil, err
	}
	if err := os.WriteFile(c.Key, kp, 0o600); err != nil {
		return nil, err
	}
	c.Pair, err = tls.X509KeyPair(cp, kp)
	return c, err
}

// Proc is a process under observation.
type Proc struct {
	cmd    *exec.Cmd
	mu     sync.Mutex
	out    bytes.Buffer
	err    bytes.Buffer
	exited chan struct{}
	RC     int
}

type writer struct {
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (w writer) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() > 64<<20 {
		return len(p), nil
	}
	return w.b.Write(p)
}

func Start(bin string, args ...string) (*Proc, error) {
	p := &Proc{exited: make(chan struct{})}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Stdout = writer{&p.mu, &p.out}
	p.cmd.Stderr = writer{&p.mu, &p.err}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.cmd.Wait()
		p.RC = p.cmd.ProcessState.ExitCode()
		close(p.exited)
	}()
	return p, nil
}

func (p *Proc) Stdout() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *Proc) Stderr() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.err.String()
	if len(s) > 30000 {
		s = s[:15000] + "\n...\n" + s[len(s)-15000:]
	}
	return s
}

func (p *Proc) Running() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

func (p *Proc) Wait(d time.Duration) bool {
	select {
	case <-p.exited:
		return true
	case <-time.After(d):
		return false
	}
}

// interrupt ends the process the way a user does.
func (p *Proc) Interrupt() bool {
	p.cmd.Process.Signal(os.Interrupt)
	if p.Wait(5 * time.Second) {
		return true
	}
	p.Kill()
	return false
}

func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	p.Wait(5 * time.Second)
}

// Crashed finds a Go crash in the output of a process.
func Crashed(text string) string {
	for _, m := range []string{"panic: ", "fatal error: ", "SIGSEGV", "unexpected fault"} {
		if i := strings.Index(text, m); i >= 0 && (i == 0 || text[i-1] == '\n') {
			return text[i:]
		}
	}
	return ""
}

// Collector is a running gnmi_collector.
type Collector struct {
	*Proc
	Addr string
}

var ErrPort = errors.New("no port to listen on")

func StartCollector(bin, dir string, c *Certs, conf *tpb.Configuration, flags ...string) (*Collector, error) {
	f := filepath.Join(dir, "config.pb.txt")
	b, err := prototext.MarshalOptions{Multiline: true}.Marshal(conf)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(f, b, 0o600); err != nil {
		return nil, err
	}
	for range 10 {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			return nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		args := append([]string{"-logtostderr", "-config_file", f, "-cert_file", c.Cert, "-key_file", c.Key, "-port", fmt.Sprint(port)}, flags...)
		p, err := Start(bin, args...)
		if err != nil {
			return nil, err
		}
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		deadline := time.Now().Add(30 * time.Second)
		for time.Now().Before(deadline) && p.Running() {
			cc, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				cc.Close()
				return &Collector{p, addr}, nil
			}
			time.Sleep(10 * time.Millisecond)
		}
		if !p.Running() && strings.Contains(p.Stderr(), "failed to listen") {
			continue
		}
		running := p.Running()
		p.Kill()
		return nil, fmt.Errorf("the collector does not listen (running: %v, exit %d): %s", running, p.RC, p.Stderr())
	}
	return nil, ErrPort
}

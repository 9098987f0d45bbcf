package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
)

// Classes of file system calls (inject/inject.c).
const (
	fRead   = 1
	fWrite  = 2
	fOpen   = 4
	fSeek   = 8
	fStat   = 16
	fMeta   = 32
	fSync   = 64
	fLock   = 128
	fAccept = 256
)

const (
	iOff = iota
	iError
	iShort
	iKill
	iTorn
)

var injectOnce sync.Once
var injectBin string

// Injector compiles the fault injector; it is "" where ptrace cannot be used.
func (c *C) Injector() string {
	injectOnce.Do(func() {
		bin := filepath.Join(c.Work, "inject-bin")
		src := filepath.Join(c.Verif, "harness", "inject", "inject.c")
		if out, err := exec.Command("gcc", "-O1", "-w", "-o", bin, src).CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "inject: %v %s\n", err, out)
			return
		}
		probe := c.dir("inject-probe")
		in := &Inject{ctl: probe}
		in.Set(iError, 0, fOpen, 0, -1, 0, 1, 1)
		if err := exec.Command(bin, probe, "-", "/etc", "--", "/bin/ls", "/etc").Run(); err != nil || in.Seen() == 0 {
			fmt.Fprintf(os.Stderr, "inject: unusable: %v\n", err)
			return
		}
		injectBin = bin
	})
	return injectBin
}

type Inject struct{ ctl string }

// NewInject gives the prefix of a command whose calls on the paths are controlled.
func (c *C) NewInject(name string, paths ...string) (*Inject, []string) {
	in := &Inject{ctl: c.dir("ctl-%s", name)}
	in.Set(iOff, 0, 0, 0, 0, 0, 1, 1)
	return in, append(append([]string{c.Injector(), in.ctl, "-"}, paths...), "--")
}

// Set writes the control block (the counters restart).
func (in *Inject) Set(mode, errno, mask, skip, count, permille, seed, unit int) {
	f, err := os.OpenFile(in.ctl, os.O_RDWR|os.O_CREATE, 0644)
	must(err)
	defer f.Close()
	b := make([]byte, 48)
	for i, v := range []int{0, errno, mask, skip, count, permille, seed, 0, 0, 0, unit, 0} {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(int32(v)))
	}
	_, err = f.WriteAt(b, 0)
	must(err)
	binary.LittleEndian.PutUint32(b, uint32(mode)) // last: everything else is in place
	_, err = f.WriteAt(b[:4], 0)
	must(err)
}

func (in *Inject) read(i int) int {
	b, err := os.ReadFile(in.ctl)
	if err != nil || len(b) < 48 {
		return 0
	}
	return int(binary.LittleEndian.Uint32(b[4*i:]))
}

func (in *Inject) Hits() int   { return in.read(7) }
func (in *Inject) Events() int { return in.read(8) }
func (in *Inject) Seen() int   { return in.read(9) }

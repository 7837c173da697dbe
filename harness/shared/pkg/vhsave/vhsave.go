//go:build go1.21

// Package vhsave checks that a save replaces a file in one step and reports failures: it watches
// the directory with inotify, keeps the old file alive by a hard link, and makes writes fail at
// every length with a file size limit. Everything happens inside the directory it is given.
package vhsave

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"unsafe"

	"github.com/innerr/ticat/pkg/vh"
)

// Saver saves one of two contents to a path. Check tells what is wrong with a text that should be
// content number v.
type Saver struct {
	Save  func(path string, v int)
	Check func(text string, v int) string
}

type event struct {
	mask uint32
	name string
}

func (e event) String() string {
	for _, m := range []struct {
		m uint32
		s string
	}{{syscall.IN_MODIFY, "written"}, {syscall.IN_CREATE, "created"}, {syscall.IN_DELETE, "deleted"}, {syscall.IN_MOVED_FROM, "moved away"}, {syscall.IN_MOVED_TO, "replaced"}} {
		if e.mask&m.m != 0 {
			return fmt.Sprintf("%s %s", e.name, m.s)
		}
	}
	return fmt.Sprintf("%s %x", e.name, e.mask)
}

// watch runs f and returns what happened to the files in the directory.
func watch(dir string, f func()) (evs []event, panicked bool, with any) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panicked, with = vh.Panics(f)
		return
	}
	defer syscall.Close(fd)
	_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO)
	panicked, with = vh.Panics(f)
	if err != nil {
		return
	}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(fd, buf)
		if err != nil || n < syscall.SizeofInotifyEvent {
			return
		}
		for at := 0; at+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[at]))
			name := buf[at+syscall.SizeofInotifyEvent : at+syscall.SizeofInotifyEvent+int(e.Len)]
			evs = append(evs, event{e.Mask, string(bytes.TrimRight(name, "\x00"))})
			at += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
}

// limited runs f with a limit on the size of written files.
func limited(n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	defer signal.Reset(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}) != nil {
		return
	}
	f()
}

func read(path string) string {
	d, err := os.ReadFile(path)
	if err != nil {
		return "(" + err.Error() + ")"
	}
	return string(d)
}

// Check saves content 0, then content 1 over it, in a fresh directory below dir.
func (s Saver) Once(dir string, limits func(size int) []int) string {
	sub, err := os.MkdirTemp(dir, "save")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(sub)
	path := filepath.Join(sub, "the-file")
	link := filepath.Join(sub, "link-to-old")

	if p, v := vh.Panics(func() { s.Save(path, 0) }); p {
		return fmt.Sprintf("the first save failed: %v", v)
	}
	old := read(path)
	if r := s.Check(old, 0); r != "" {
		return "after the first save: " + r
	}
	if err := os.Link(path, link); err != nil {
		panic(err)
	}
	evs, p, v := watch(sub, func() { s.Save(path, 1) })
	if p {
		return fmt.Sprintf("the second save failed: %v", v)
	}
	now := read(path)
	if r := s.Check(now, 1); r != "" {
		return "after the second save: " + r
	}
	if got := read(link); got != old {
		return fmt.Sprintf("the old file was written in place: a link to it now reads %q, was %q", got, old)
	}
	replaced := 0
	var made []string
	for _, e := range evs {
		if e.mask&syscall.IN_CREATE != 0 {
			made = append(made, e.name)
		}
		if e.name != filepath.Base(path) {
			continue
		}
		if e.mask&syscall.IN_MOVED_TO == 0 {
			return fmt.Sprintf("a crash during the save leaves no complete file: the steps were %v", evs)
		}
		replaced++
	}
	if replaced > 1 {
		return fmt.Sprintf("the file was replaced %d times in one save: the steps were %v", replaced, evs)
	}

	// what an earlier save that was killed left behind does not get into the file
	for _, name := range made {
		os.WriteFile(filepath.Join(sub, name), bytes.Repeat([]byte("left=behind\n"), 1+(len(old)+len(now))/4), 0644)
	}
	if p, v := vh.Panics(func() { s.Save(path, 0) }); p {
		return fmt.Sprintf("the save after a killed one failed: %v", v)
	}
	if r := s.Check(read(path), 0); r != "" {
		return "after a save that was killed and one that was not: " + r
	}

	// writes that fail
	for _, n := range limits(len(now)) {
		var p bool
		limited(uint64(n), func() { p, _ = vh.Panics(func() { s.Save(path, 1) }) })
		got := read(path)
		if got == old && p {
			continue
		}
		if s.Check(got, 1) == "" && !p {
			if n < len(now) {
				return fmt.Sprintf("the content has %d bytes, no file may be longer than %d, and the save reports success", len(now), n)
			}
			if p, v := vh.Panics(func() { s.Save(path, 0) }); p {
				return fmt.Sprintf("the save failed: %v", v)
			}
			continue
		}
		if p {
			return fmt.Sprintf("a save that failed because files may have at most %d bytes changed the file to %q, was %q", n, got, old)
		}
		return fmt.Sprintf("a save where files may have at most %d bytes was not reported as failed, and the file is now %q instead of %q", n, got, now)
	}

	// a file that can't be replaced
	blocked := filepath.Join(sub, "blocked")
	os.MkdirAll(filepath.Join(blocked, "full"), 0755)
	if p, _ := vh.Panics(func() { s.Save(blocked, 1) }); !p {
		return "a save to a path that can't be replaced reports success"
	}
	if _, err := os.Stat(filepath.Join(blocked, "full")); err != nil {
		return "a save to a path that can't be replaced removed what was there"
	}
	// a directory that does not exist: made, or reported
	away := filepath.Join(sub, "no-dir", "deep", "file")
	if p, _ := vh.Panics(func() { s.Save(away, 1) }); !p {
		if r := s.Check(read(away), 1); r != "" {
			return "after a save into a new directory: " + r
		}
	}
	// below a file there is no directory to make
	under := filepath.Join(path, "file")
	if p, _ := vh.Panics(func() { s.Save(under, 1) }); !p {
		return "a save below a file reports success"
	}
	if got := read(path); s.Check(got, 0) != "" {
		return fmt.Sprintf("a failed save below a file changed the file to %q", got)
	}
	return ""
}

// Limits picks the lengths at which writes fail: all of them for small files.
func Limits(r interface{ Intn(int) int }) func(int) []int {
	return func(size int) (ns []int) {
		if size <= 60 {
			for i := 0; i <= size; i++ {
				ns = append(ns, i)
			}
			return
		}
		ns = []int{0, 1, size - 1, size}
		for i := 0; i < 12; i++ {
			ns = append(ns, r.Intn(size))
		}
		for _, n := range []int{4095, 4096, 4097, 8192, 65536} {
			if n < size {
				ns = append(ns, n)
			}
		}
		return
	}
}

//go:build go1.21

package vstd

import (
	"bufio"
	"bytes"
	"io"
	"io/fs"
	"os"
	"syscall"
)

// Files, as far as the contracts need them: the bytes under a name, changed by the steps below.
// Each of these calls is one step, a process may be stopped between any two of them; a single write
// that is cut off leaves any text in the file it writes.

// DiskText: the bytes of the file under a name.
//
//vc:ghostfield
func DiskText(name string) string { return "" }

// NameOf: the name a file handle was opened with.
//
//vc:spec uf
func NameOf(f any) string { return "" }

//vc:extern os.OpenFile
func _(name string, flag int, perm fs.FileMode) (f *os.File, err error) {
	NoAlloc(f)
	Modifies(DiskText(name))
	Ensures(Implies(flag == os.O_RDWR|os.O_CREATE|os.O_TRUNC && err == nil, DiskText(name) == ""))
	Ensures(Implies(err != nil, DiskText(name) == Old(DiskText(name))))
	Ensures(Implies(err == nil, Fresh(f) && NameOf(f) == name && !IsBuffer(name)))
	return
}

//vc:extern os.Create
func _(name string) (f *os.File, err error) {
	NoAlloc(f)
	Modifies(DiskText(name))
	Ensures(Implies(err == nil, DiskText(name) == "" && Fresh(f) && NameOf(f) == name && !IsBuffer(name)))
	Ensures(Implies(err != nil, DiskText(name) == Old(DiskText(name))))
	return
}

//vc:extern os.Open
func _(name string) (f *os.File, err error) {
	NoAlloc(f)
	Ensures(Implies(err == nil, Fresh(f) && NameOf(f) == name && !IsBuffer(name)))
	Ensures(Implies(err != nil && os.IsNotExist(err), len(LinesOf(DiskText(name))) == 0))
	return
}

//vc:extern os.IsNotExist pure
func _(err error) (r bool) {
	return
}

//vc:extern io/ioutil.WriteFile
func _(name string, data []byte, perm fs.FileMode) (err error) {
	NoAlloc()
	Modifies(DiskText(name))
	Ensures(Implies(err == nil, DiskText(name) == string(data)))
	return
}

//vc:extern os.WriteFile
func _(name string, data []byte, perm fs.FileMode) (err error) {
	NoAlloc()
	Modifies(DiskText(name))
	Ensures(Implies(err == nil, DiskText(name) == string(data)))
	return
}

//vc:extern os.Truncate
func _(name string, size int64) (err error) {
	NoAlloc()
	Modifies(DiskText(name))
	return
}

//vc:extern os.Remove
func _(name string) (err error) {
	NoAlloc()
	Modifies(DiskText(name))
	return
}

//vc:extern os.Rename
func _(from, to string) (err error) {
	NoAlloc()
	Modifies(DiskText(to), DiskText(from))
	Ensures(Implies(err == nil, DiskText(to) == Old(DiskText(from))))
	Ensures(Implies(err != nil, DiskText(to) == Old(DiskText(to)) && DiskText(from) == Old(DiskText(from))))
	return
}

//vc:extern (*os.File).Close
func _(f *os.File) (err error) {
	NoAlloc()
	return
}

//vc:extern (*os.File).Sync
func _(f *os.File) (err error) {
	NoAlloc()
	return
}

//vc:extern (*os.File).Truncate
func _(f *os.File, size int64) (err error) {
	NoAlloc()
	Modifies(DiskText(NameOf(f)))
	return
}

//vc:extern (*os.File).Write
func _(f *os.File, b []byte) (n int, err error) {
	NoAlloc()
	Modifies(DiskText(NameOf(f)))
	Ensures(Implies(err == nil, DiskText(NameOf(f)) == Old(DiskText(NameOf(f)))+string(b)))
	return
}

//vc:extern (*os.File).WriteString
func _(f *os.File, s string) (n int, err error) {
	NoAlloc()
	Modifies(DiskText(NameOf(f)))
	Ensures(Implies(err == nil, DiskText(NameOf(f)) == Old(DiskText(NameOf(f)))+s))
	return
}

// FprintStr: fmt.Fprintf with a constant format of %s, %v, %d.
//
//vc:extern vstd.FprintStr
func _(w io.Writer, s string) (n int, err error) {
	NoAlloc()
	Modifies(DiskText(NameOf(w)))
	Ensures(Implies(err == nil, DiskText(NameOf(w)) == Old(DiskText(NameOf(w)))+s))
	Ensures(Implies(IsBuffer(NameOf(w)), err == nil))
	return
}

// ---- buffers: the text written to them, under a name that no file can have

// IsBuffer: the name of a buffer: it begins with a byte that no file name has.
//
//vc:spec
func IsBuffer(name string) bool { return len(name) > 0 && name[0] == 0 }

//vc:extern bytes.NewBuffer
func _(buf []byte) (b *bytes.Buffer) {
	NoAlloc(b)
	Ensures(Fresh(b) && IsBuffer(NameOf(b)) && Implies(len(buf) == 0, DiskText(NameOf(b)) == ""))
	return
}

//vc:extern (*bytes.Buffer).Bytes
func _(b *bytes.Buffer) (r []byte) {
	NoAlloc()
	Ensures(string(r) == DiskText(NameOf(b)))
	return
}

//vc:extern (*bytes.Buffer).String
func _(b *bytes.Buffer) (r string) {
	NoAlloc()
	Ensures(r == DiskText(NameOf(b)))
	return
}

// ---- reading line by line

// LinesOf: what a bufio.Scanner with ScanLines gives for a text.
//
//vc:spec uf
func LinesOf(text string) []string { return nil }

// TextOf: the first n lines, each with its line feed.
//
//vc:spec
//vc:dec n
func TextOf(lines []string, n int) string {
	if n <= 0 {
		return ""
	}
	return TextOf(lines, n-1) + (lines[n-1] + "\n")
}

// TextCat: the text of the first lines does not depend on what follows them.
//
//vc:lemma auto
func TextCat(a, b []string, n int) {
	Requires(n <= len(a))
	Ensures(TextOf(append(a, b...), n) == TextOf(a, n))
	Trig(TextOf(append(a, b...), n))
	Decreases(n)
	if n > 0 {
		TextCat(a, b, n-1)
	}
}

// IsLine: a text which is one line and is read back as it is.
//
//vc:spec
func IsLine(s string) bool {
	return Forall(0, len(s), func(i int) bool { Trig(s[i]); return s[i] != '\n' }) && (len(s) == 0 || s[len(s)-1] != '\r')
}

// LinesBack: lines written one by one are read back.
//
//vc:axiom
func LinesBack(lines []string, n int) {
	Trig(LinesOf(TextOf(lines, n)))
	Ensures(Implies(0 <= n && n <= len(lines) && Forall(0, n, func(i int) bool { Trig(lines[i]); return IsLine(lines[i]) }),
		Eq(LinesOf(TextOf(lines, n)), lines[:n])))
}

// LinesOneLine: no line has a line feed.
//
//vc:axiom
func LinesOneLine(text string, i int) {
	Trig(LinesOf(text)[i])
	Ensures(Implies(0 <= i && i < len(LinesOf(text)), NoByte(LinesOf(text)[i], '\n')))
}

//vc:ghostfield
func ScanLines(s *bufio.Scanner) []string { return nil }

//vc:ghostfield
func ScanPos(s *bufio.Scanner) int { return 0 }

//vc:ghostfield
func ScanFailed(s *bufio.Scanner) bool { return false }

//vc:extern bufio.NewScanner
func _(r io.Reader) (s *bufio.Scanner) {
	NoAlloc(s)
	Ensures(Fresh(s) && ScanPos(s) == 0 && !ScanFailed(s))
	Ensures(Eq(ScanLines(s), LinesOf(DiskText(NameOf(r)))))
	return
}

// no line is too long for an int32
//
//vc:extern (*bufio.Scanner).Buffer
func _(s *bufio.Scanner, buf []byte, max int) {
	NoAlloc()
	Requires(max >= 2147483647)
}

//vc:extern (*bufio.Scanner).Split
func _(s *bufio.Scanner, f bufio.SplitFunc) {
	NoAlloc()
}

//vc:extern (*bufio.Scanner).Scan
func _(s *bufio.Scanner) (ok bool) {
	NoAlloc()
	Modifies(ScanPos(s), ScanFailed(s))
	n := Old(ScanPos(s))
	Ensures(Implies(ok, n < len(ScanLines(s)) && ScanPos(s) == n+1 && !ScanFailed(s)))
	Ensures(Implies(!ok && !ScanFailed(s), n >= len(ScanLines(s))))
	Ensures(Implies(!ok, ScanPos(s) == n))
	return
}

//vc:extern (*bufio.Scanner).Text
func _(s *bufio.Scanner) (r string) {
	NoAlloc()
	Ensures(Implies(0 < ScanPos(s) && ScanPos(s) <= len(ScanLines(s)), r == ScanLines(s)[ScanPos(s)-1]))
	return
}

//vc:extern (*bufio.Scanner).Err
func _(s *bufio.Scanner) (err error) {
	NoAlloc()
	Ensures((err != nil) == ScanFailed(s))
	return
}

// Removed: the directory (or file) was removed with everything in it.
//
//vc:ghostfield
func Removed(name string) bool { return false }

// The files the contracts speak of are not inside the directories removed.
//
//vc:extern os.RemoveAll
func _(name string) (err error) {
	NoAlloc()
	Modifies(Removed(name))
	return
}

//vc:extern os.ReadDir
func _(name string) (dirs []os.DirEntry, err error) {
	NoAlloc()
	Ensures(Forall(0, len(dirs), func(i int) bool { Trig(dirs[i]); return dirs[i] != nil }))
	return
}

//vc:extern (io/fs.DirEntry).Name pure
func _(d os.DirEntry) (r string) {
	return
}

//vc:extern (error).Error pure
func _(e error) (r string) {
	return
}

// Gone: the process was found to be gone.
//
//vc:spec uf
func Gone(pid int) bool { return false }

// PidOf: the process the handle is for.
//
//vc:spec uf
func PidOf(p *os.Process) int { return 0 }

// Processes are only asked whether they are there, no signal is sent.
//
//vc:extern syscall.Kill
func _(pid int, sig syscall.Signal) (err error) {
	NoAlloc()
	Requires(sig == 0)
	Ensures(Implies(err == error(syscall.ESRCH), Gone(pid)))
	return
}

//vc:extern os.FindProcess
func _(pid int) (p *os.Process, err error) {
	NoAlloc(p)
	Ensures(Implies(err == nil, Live(p) && PidOf(p) == pid))
	return
}

//vc:extern (*os.Process).Signal
func _(p *os.Process, sig os.Signal) (err error) {
	NoAlloc()
	Requires(sig == os.Signal(syscall.Signal(0)))
	Ensures(Implies(err != nil && err.Error() == "os: process already finished", Gone(PidOf(p))))
	Ensures(Implies(err == error(syscall.ESRCH), Gone(PidOf(p))))
	return
}

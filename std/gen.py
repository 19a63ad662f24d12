#!/usr/bin/env python3
"""gen.py OUTDIR: patched copies of a few files of the standard library's os
package, so that a program built with them has its I/O operations traced and
failed on demand. Prints the {original: replacement} map as JSON."""
import json
import os
import subprocess
import sys

out = sys.argv[1]
goroot = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip()
os.makedirs(out, exist_ok=True)
rep = {}


def patch(f, subs):
    p = f'{goroot}/src/os/{f}'
    s = open(p).read()
    for sig, ins in subs:
        assert s.count(sig) == 1, (f, sig)
        s = s.replace(sig, sig + '\n' + ins)
    open(f'{out}/{f}', 'w').write(s)
    rep[p] = f'{out}/{f}'


patch('file.go', [
    ('func (f *File) Read(b []byte) (n int, err error) {',
     '''if f != nil && len(b) > 0 { if e, k, hit := verifFault("read", f.name, len(b)); hit {
	if e != nil { return 0, e }
	b = b[:k]
} }'''),
    ('func (f *File) Write(b []byte) (n int, err error) {',
     '''if f != nil { if e, k, hit := verifFault("write", f.name, len(b)); hit && e != nil {
	m := 0
	if k > 0 { m, _ = f.write(b[:k]) }
	return m, e
} }'''),
    ('func Mkdir(name string, perm FileMode) error {', 'if e, _, _ := verifFault("mkdir", name, 0); e != nil { return e }'),
    ('func OpenFile(name string, flag int, perm FileMode) (*File, error) {',
     '''{ op := "open"; if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 { op = "create" }
	if e, _, _ := verifFault(op, name, 0); e != nil { return nil, e } }'''),
    ('func Rename(oldpath, newpath string) error {', 'if e, _, _ := verifFault("rename", newpath, 0); e != nil { return e }'),
])
patch('stat.go', [
    ('func Stat(name string) (FileInfo, error) {', 'if e, _, _ := verifFault("stat", name, 0); e != nil { return nil, e }'),
    ('func Lstat(name string) (FileInfo, error) {', 'if e, _, _ := verifFault("lstat", name, 0); e != nil { return nil, e }')])
patch('file_posix.go', [('func (f *File) Close() error {',
    '''if f != nil { if e, _, _ := verifFault("close", f.name, 0); e != nil {
	if f.file != nil { f.file.close() }
	return e
} }''')])
patch('dir_unix.go', [('func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {',
    'if e, _, _ := verifFault("readdir", f.name, 0); e != nil { return nil, nil, nil, e }')])

patch('proc.go', [('func Exit(code int) {', 'if VerifExit != nil { VerifExit(code) }')])

open(f'{out}/zz_verif.go', 'w').write('''package os

import (
	"sync"
	"syscall"
)

// A fault makes the occ-th operation op on name fail with errno (0: succeed,
// but transfer only part bytes).
type verifPoint struct {
	op, name         string
	occ, errno, part int
}

var (
	verifMu    sync.Mutex
	verifOn    bool
	verifFd    = -1
	verifHits  int
	verifSpecs []verifPoint
	verifSeen  map[string]int
)

// VerifExit, if set, is told about the exit status first.
var VerifExit func(code int)

// VerifArm arms the faults of a specification: op|name|occ|errno|part;...
// An empty specification disarms. It returns how many faults were delivered
// since the last call.
func VerifArm(spec string) int {
	verifMu.Lock()
	defer verifMu.Unlock()
	hits := verifHits
	verifSpecs, verifSeen, verifHits, verifOn = nil, map[string]int{}, 0, spec != ""
	var f []string
	cur := ""
	num := func(s string) int {
		n := 0
		for _, c := range s { n = n*10 + int(c-'0') }
		return n
	}
	for i := 0; i <= len(spec); i++ {
		if i < len(spec) && spec[i] != '|' && spec[i] != ';' {
			cur += spec[i:i+1]
			continue
		}
		f = append(f, cur)
		cur = ""
		if i == len(spec) || spec[i] == ';' {
			if len(f) == 5 {
				verifSpecs = append(verifSpecs, verifPoint{f[0], f[1], num(f[2]), num(f[3]), num(f[4])})
			}
			f = nil
		}
	}
	return hits
}

func init() {
	if s, ok := syscall.Getenv("VERIF_TRACE"); ok {
		fd, err := syscall.Open(s, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0644)
		if err == nil { verifFd = fd; VerifArm("trace"); verifFd = fd }
	}
	if s, ok := syscall.Getenv("VERIF_FAULT"); ok { VerifArm(s) }
}

func verifItoa(n int) string {
	s := ""
	for n > 9 { s = string(rune('0'+n%10)) + s; n /= 10 }
	return string(rune('0'+n)) + s
}

func verifFault(op, name string, n int) (error, int, bool) {
	if !verifOn || name == "/dev/stderr" { return nil, 0, false }
	verifMu.Lock()
	defer verifMu.Unlock()
	if !verifOn { return nil, 0, false }
	k := op + "|" + name
	occ := verifSeen[k]
	verifSeen[k] = occ + 1
	if verifFd >= 0 {
		syscall.Write(verifFd, []byte(k+"|"+verifItoa(occ)+"|"+verifItoa(n)+"\\n"))
	}
	for _, p := range verifSpecs {
		if p.op == op && p.name == name && p.occ == occ {
			verifHits++
			if p.part > n { p.part = n }
			if p.errno == 0 { if p.part < 1 { p.part = 1 }; return nil, p.part, true }
			return &PathError{Op: op, Path: name, Err: syscall.Errno(p.errno)}, p.part, true
		}
	}
	return nil, 0, false
}
''')
rep[f'{goroot}/src/os/zz_verif.go'] = f'{out}/zz_verif.go'
print(json.dumps(rep))

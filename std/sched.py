#!/usr/bin/env python3
"""sched.py OUTDIR: patched copies of a few files of the Go runtime and the
packages sync, sync/atomic and os, so that a program built with them runs its
goroutines one at a time under the control of a schedule given in the
environment, switching only at visible operations. Prints the
{original: replacement} map as JSON. See /verif/DESIGN.md, C01."""
import json
import os
import re
import subprocess
import sys

out = sys.argv[1]
goroot = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip()
os.makedirs(out, exist_ok=True)
rep = {}


def read(f):
    return open(f'{goroot}/src/{f}').read()


def write(f, s):
    p = f'{out}/{f.replace("/", "_")}'
    open(p, 'w').write(s)
    rep[f'{goroot}/src/{f}'] = p


def patch(f, subs):
    """subs: (anchor, text, where), where = after, before or replace"""
    s = read(f)
    for anchor, text, where in subs:
        assert s.count(anchor) == 1, (f, anchor, s.count(anchor))
        s = s.replace(anchor, {'after': anchor + '\n' + text, 'before': text + '\n' + anchor, 'replace': text}[where])
    write(f, s)


# --- runtime ---
patch('runtime/runtime2.go', [('''	valgrindStackID uintptr
}''', '''	valgrindStackID uintptr

	verifID    uint32
	verifState uint8
	verifKind  uint8
	verifSleep bool
	verifN     uint8
	verifObj   [5]uintptr // lowest bit: write
}''', 'replace')])

patch('runtime/proc.go', [
    ('''		newg := newproc1(fn, gp, pc, false, waitReasonZero)
''', '''		if gp.verifID != 0 && !isSystemGoroutine(newg, false) {
			verifSpawn(newg)
			return
		}
''', 'after'),
    ('''	// Mark runnable.
	mp := acquirem() // disable preemption because it can be holding p in a local var
	if status&^_Gscan != _Gwaiting {''', '''	if gp.verifID != 0 && !verifDispatching && status&^_Gscan == _Gwaiting {
		verifWoken(gp)
		return
	}
''', 'before'),
    ('''	if bubble != nil {
		bubble.decActive()
	}

	schedule()
}

func goschedImpl''', '''	if bubble != nil {
		bubble.decActive()
	}

	if gp.verifID != 0 {
		verifParked(gp)
	}

	schedule()
}

func goschedImpl''', 'replace'),
    ('''	gdestroy(gp)
	schedule()
}''', '''	verif := gp.verifID
	gp.verifID = 0
	gdestroy(gp)
	if verif != 0 {
		verifGone(verif)
	}
	schedule()
}''', 'replace'),
    ('''	fn := main_main // make an indirect call, as the linker doesn't know the address of the main package when laying down the runtime
	fn()''', '''	fn := main_main // make an indirect call, as the linker doesn't know the address of the main package when laying down the runtime
	verifStart()
	fn()
	verifExit()''', 'replace'),
    ('func os_beforeExit(exitCode int) {', '	verifExit()', 'after'),
    ('	fatal("all goroutines are asleep - deadlock!")', '	verifDump(nil)', 'before'),
    ('func gosched_m(gp *g) {', '''	if gp.verifID != 0 {
		verifStepAside(gp)
		schedule()
	}''', 'after'),
])

patch('runtime/chan.go', [
    ('func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {',
     '	if c != nil { verifChan(verifSend, c, block) }', 'after'),
    ('func closechan(c *hchan) {', '	if c != nil { verifYield1(verifClose, uintptr(unsafe.Pointer(c))|1) }', 'after'),
    ('func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {',
     '	if c != nil { verifChan(verifRecv, c, block) }', 'after'),
])
patch('runtime/select.go', [
    ('	scases := cas1[:ncases:ncases]', '	verifRot := uint32(verifSelectYield(scases))', 'after'),
    ('		j := cheaprandn(uint32(norder + 1))', '''		if gp.verifID != 0 {
			pollorder[norder] = uint16(i)
			norder++
			continue
		}''', 'before'),
    ('	pollorder = pollorder[:norder]', '''	if gp.verifID != 0 && norder > 1 {
		// rotate: the first ready case from the chosen one on is taken
		for ; verifRot > 0; verifRot-- {
			f := pollorder[0]
			copy(pollorder, pollorder[1:norder])
			pollorder[norder-1] = f
		}
	}''', 'before'),
])
patch('runtime/rand.go', [('''	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next''', '''	if getg().verifID != 0 {
		return verifRand()
	}
''', 'before')])
patch('internal/runtime/maps/table.go', [('''	it.entryOffset = rand()
	it.dirOffset = rand()''', '''	it.entryOffset = verifIterRand()
	it.dirOffset = verifIterRand()''', 'replace')])
patch('internal/runtime/maps/runtime.go', [('''//go:linkname rand
func rand() uint64''', '''
//go:linkname verifIterRand
func verifIterRand() uint64''', 'after')])

write_zz = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'runtime_zz.go.txt')).read()
open(f'{out}/runtime_zz_verif.go', 'w').write(write_zz)
rep[f'{goroot}/src/runtime/zz_verif.go'] = f'{out}/runtime_zz_verif.go'

DECL = '''
//go:linkname verifYield
func verifYield(kind uint8, obj uintptr)
'''


def ops(kinds):
    return '\nconst (\n' + '\n'.join(f'\tverif{k} = {v}' for k, v in kinds.items()) + '\n)\n'


K = {'Send': 1, 'Recv': 2, 'Close': 3, 'Select': 4, 'Lock': 5, 'Unlock': 6, 'WgAdd': 7, 'WgWait': 8, 'Cond': 9,
     'RLock': 10, 'RUnlock': 11, 'IOR': 12, 'IOW': 13, 'Atomic': 14, 'Gosched': 15, 'Exit': 16, 'Sema': 17}


def decl(f, names):
    s = open(rep[f'{goroot}/src/{f}']).read()
    open(rep[f'{goroot}/src/{f}'], 'a').write(DECL + ops({k: K[k] for k in names}))
    if '"unsafe"' not in s:
        s = open(rep[f'{goroot}/src/{f}']).read()
        m = re.search(r'^import \($', s, re.M)
        s = s[:m.end()] + '\n\t"unsafe"' + s[m.end():]
        open(rep[f'{goroot}/src/{f}'], 'w').write(s)


# --- internal/sync ---
patch('internal/sync/mutex.go', [
    ('func (m *Mutex) Lock() {', '	verifYield(verifLock, uintptr(unsafe.Pointer(m))|1)', 'after'),
    ('func (m *Mutex) TryLock() bool {', '	verifYield(verifLock, uintptr(unsafe.Pointer(m))|1)', 'after'),
    ('func (m *Mutex) Unlock() {', '	verifYield(verifUnlock, uintptr(unsafe.Pointer(m))|1)', 'after'),
    ('			runtime_SemacquireMutex(&m.sema, queueLifo, 2)', '			verifYield(verifSema, uintptr(unsafe.Pointer(m))|1)', 'after'),
])
decl('internal/sync/mutex.go', ['Lock', 'Unlock', 'Sema'])

# --- sync ---
patch('sync/rwmutex.go', [(f'func (rw *RWMutex) {n} {{', f'	verifYield(verif{k}, uintptr(unsafe.Pointer(rw))|{w})', 'after') for n, k, w in [
    ('RLock()', 'RLock', 0), ('TryRLock() bool', 'RLock', 0), ('RUnlock()', 'RUnlock', 0),
    ('Lock()', 'Lock', 1), ('TryLock() bool', 'Lock', 1), ('Unlock()', 'Unlock', 1)]])
decl('sync/rwmutex.go', ['Lock', 'Unlock', 'RLock', 'RUnlock', 'WgAdd', 'WgWait', 'Cond'])
patch('sync/waitgroup.go', [
    ('func (wg *WaitGroup) Add(delta int) {', '	verifYield(verifWgAdd, uintptr(unsafe.Pointer(wg))|1)', 'after'),
    ('func (wg *WaitGroup) Wait() {', '	verifYield(verifWgWait, uintptr(unsafe.Pointer(wg))|1)', 'after'),
])
patch('sync/cond.go', [
    ('func (c *Cond) Wait() {', '	verifYield(verifCond, uintptr(unsafe.Pointer(c))|1)', 'after'),
    ('func (c *Cond) Signal() {', '	verifYield(verifCond, uintptr(unsafe.Pointer(c))|1)', 'after'),
    ('func (c *Cond) Broadcast() {', '	verifYield(verifCond, uintptr(unsafe.Pointer(c))|1)', 'after'),
])
s = open(rep[f'{goroot}/src/sync/cond.go']).read()
if '"unsafe"' not in s:
    s = s.replace('import (', 'import (\n\t"unsafe"', 1)
    open(rep[f'{goroot}/src/sync/cond.go'], 'w').write(s)

# --- sync/atomic: the typed values, when used outside the standard library ---
s = read('sync/atomic/type.go')


def hook(m):
    w = 0 if m.group('name') == 'Load' else 1
    return f'{m.group(0)} verifYieldUser(uintptr(unsafe.Pointer(x))|{w});'


s, n = re.subn(r'^func \(x \*[A-Za-z0-9]+(?:\[T\])?\) (?P<name>Load|Store|Swap|CompareAndSwap|Add|And|Or)\([^)]*\)[^{\n]*\{', hook, s, flags=re.M)
assert n > 30, n
s += '\n//go:linkname verifYieldUser\nfunc verifYieldUser(obj uintptr)\n'
write('sync/atomic/type.go', s)
s = read('sync/atomic/value.go')
s, n = re.subn(r'^func \(v \*Value\) (?P<name>Load|Store|Swap|CompareAndSwap)\([^)]*\)[^{\n]*\{', lambda m: f"{m.group(0)} verifYieldUser(uintptr(unsafe.Pointer(v))|{0 if m.group('name') == 'Load' else 1});", s, flags=re.M)
assert n == 4, n
write('sync/atomic/value.go', s)

# --- os ---
io_r, io_w = '	verifIORead(nil)', '	verifIOWrite()'

patch('os/file.go', [
    ('func (f *File) Read(b []byte) (n int, err error) {', '	verifIORead(f)', 'after'),
    ('func (f *File) ReadAt(b []byte, off int64) (n int, err error) {', io_r, 'after'),
    ('func (f *File) Write(b []byte) (n int, err error) {', '	if f != Stderr { verifIOWrite() }', 'after'),
    ('func (f *File) WriteAt(b []byte, off int64) (n int, err error) {', io_w, 'after'),
    ('func Mkdir(name string, perm FileMode) error {', io_w, 'after'),
    ('func Chdir(dir string) error {', io_w, 'after'),
    ('func OpenFile(name string, flag int, perm FileMode) (*File, error) {',
     '	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 { verifIOWrite() } else { verifIORead(nil) }', 'after'),
    ('func Rename(oldpath, newpath string) error {', io_w, 'after'),
])
patch('os/stat.go', [('func Stat(name string) (FileInfo, error) {', io_r, 'after'),
                     ('func Lstat(name string) (FileInfo, error) {', io_r, 'after')])
patch('os/file_unix.go', [('func Remove(name string) error {', io_w, 'after')])
patch('os/removeall_at.go', [('func removeAll(path string) error {', io_w, 'after')])
patch('os/dir_unix.go', [('func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {',
                          '	verifIORead(f)', 'after')])
open(f'{out}/os_zz_verif.go', 'w').write('''package os

import "unsafe"

var verifIO uint64

func verifIORead(f *File) {
	if f != nil {
		verifYield2(verifIOR, uintptr(unsafe.Pointer(&verifIO)), uintptr(unsafe.Pointer(f))|1)
	} else {
		verifYield(verifIOR, uintptr(unsafe.Pointer(&verifIO)))
	}
}

func verifIOWrite() { verifYield(verifIOW, uintptr(unsafe.Pointer(&verifIO))|1) }
''' + DECL + '''
//go:linkname verifYield2
func verifYield2(kind uint8, a, b uintptr)
''' + ops({k: K[k] for k in ['IOR', 'IOW']}))
rep[f'{goroot}/src/os/zz_verif.go'] = f'{out}/os_zz_verif.go'

print(json.dumps(rep))

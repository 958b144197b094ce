// Package simk serves the system calls of simulated goroutines from the
// virtual kernel, applies the fault plan and records what happened.
package simk

import (
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/buypal/oapi-go/internal/verifsim/vk"
)

type openFile struct {
	n      *vk.Inode
	path   string
	off    int64
	flags  int
	dirs   []vk.Dirent // listing being read
	dirpos int
	listed bool
	std    int // 1 stdout, 2 stderr
	stdin  bool
	refs   int
}

// Kernel is the state of the simulated machine.
type Kernel struct {
	FS          *vk.FS
	Job         *vk.Job
	fds         map[int]*openFile
	cwd         *vk.Inode
	Stdout      []byte
	Stderr      []byte
	Ops         []vk.OpRec
	Injected    map[string]int
	Unknown     []string
	counts      []int
	Syscalls    int
	faults      []vk.Fault
	Stalled     bool
	LoaderCalls int
}

// K is the kernel of this process.
var K *Kernel

const fdBase = 1000
const atFDCWD = -100

// New boots a kernel from a job.
func New(j *vk.Job) *Kernel {
	k := &Kernel{FS: vk.NewFS(), Job: j, fds: map[int]*openFile{}, Injected: map[string]int{}}
	k.FS.Load(j.FS)
	d, _ := k.FS.Lookup(j.Cwd, true)
	if d == nil {
		d = k.FS.In[2]
	}
	k.cwd = d
	k.FS.Record = true
	k.FS.Alloc = 0
	k.fds[0] = &openFile{stdin: true, path: "/dev/stdin"}
	k.fds[1] = &openFile{std: 1, path: "/dev/stdout"}
	k.fds[2] = &openFile{std: 2, path: "/dev/stderr"}
	k.SetFaults(j.Faults)
	K = k
	return k
}

// SetFaults replaces the fault plan.
func (k *Kernel) SetFaults(f []vk.Fault) {
	k.faults = f
	k.counts = make([]int, len(f))
}

// OpenFDs lists files opened and not closed.
func (k *Kernel) OpenFDs() (out []string) {
	for fd, f := range k.fds {
		if fd >= fdBase {
			out = append(out, f.path)
		}
	}
	sort.Strings(out)
	return
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(unsafe.Pointer(p))
	n := 0
	for b[n] != 0 {
		n++
	}
	return string(b[:n:n])
}

func mem(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return (*[1 << 30]byte)(unsafe.Pointer(p))[:n:n]
}

func (k *Kernel) base(dirfd int) (*vk.Inode, int) {
	if dirfd == atFDCWD {
		return k.cwd, 0
	}
	f := k.fds[dirfd]
	if f == nil || f.n == nil {
		return nil, vk.EBADF
	}
	if f.n.Type != vk.TDir {
		return nil, vk.ENOTDIR
	}
	return f.n, 0
}

func (k *Kernel) abs(dirfd int, p string) string {
	if strings.HasPrefix(p, "/") {
		return clean(p)
	}
	b := "/"
	if dirfd == atFDCWD {
		b = k.FS.PathOf(k.cwd)
	} else if f := k.fds[dirfd]; f != nil {
		b = f.path
	}
	return clean(b + "/" + p)
}

func clean(p string) string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func match(pat, p string) bool {
	if pat == "" {
		return true
	}
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(p, pat[:len(pat)-1])
	}
	return pat == p
}

// fault finds the fault that hits this call, if any.
func (k *Kernel) fault(sys, path string, write bool) *vk.Fault {
	var hit *vk.Fault
	for i := range k.faults {
		f := &k.faults[i]
		if f.Sys != "*" && f.Sys != sys {
			continue
		}
		if !match(f.Path, path) {
			continue
		}
		if (f.Only == "w" && !write) || (f.Only == "r" && write) {
			continue
		}
		c := k.counts[i]
		k.counts[i]++
		if c >= f.Nth && (f.Count == 0 || c < f.Nth+f.Count) && hit == nil {
			hit = f
		}
	}
	if hit != nil {
		name := sys + ":"
		switch {
		case hit.Errno != 0:
			name += errName(hit.Errno)
			if hit.After {
				name += "-after"
			}
		default:
			name += "short"
		}
		k.Injected[name]++
	}
	return hit
}

func errName(e int) string {
	switch e {
	case vk.EINTR:
		return "EINTR"
	case vk.EIO:
		return "EIO"
	case vk.EACCES:
		return "EACCES"
	case vk.ENOSPC:
		return "ENOSPC"
	case vk.EDQUOT:
		return "EDQUOT"
	case vk.EMFILE:
		return "EMFILE"
	case vk.ENFILE:
		return "ENFILE"
	case vk.ENOMEM:
		return "ENOMEM"
	case vk.EROFS:
		return "EROFS"
	case vk.EPERM:
		return "EPERM"
	case vk.EBUSY:
		return "EBUSY"
	case vk.ENOENT:
		return "ENOENT"
	case vk.EPIPE:
		return "EPIPE"
	case vk.EBADF:
		return "EBADF"
	case vk.ELOOP:
		return "ELOOP"
	case vk.ESTALE:
		return "ESTALE"
	case vk.ENOTDIR:
		return "ENOTDIR"
	case vk.ENAMETOOLONG:
		return "ENAMETOOLONG"
	case vk.EXDEV:
		return "EXDEV"
	case vk.EFBIG:
		return "EFBIG"
	case vk.ETIMEDOUT:
		return "ETIMEDOUT"
	case vk.ENXIO:
		return "ENXIO"
	case vk.EREMOTEIO:
		return "EREMOTEIO"
	}
	return "E" + itoa(e)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (k *Kernel) record(sys, path string, ret int64, e int, inj bool, flags string) {
	if !k.Job.Trace && !inj {
		return
	}
	if len(k.Ops) > 20000 {
		return
	}
	st, _, _, _, _, _, _ := runtime.SimStats()
	k.Ops = append(k.Ops, vk.OpRec{Sys: sys, Path: path, Ret: ret, Err: e, Step: st, Inj: inj, Flags: flags})
}

const neg1 = ^uintptr(0)

// Hook is the system call entry.
func Hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, uintptr) {
	runtime.SimTick(2000)
	k := K
	k.Syscalls++
	st, _, _, _, _, _, _ := runtime.SimStats()
	k.FS.Step = st
	r, e := k.call(trap, a1, a2, a3, a4, a5, a6)
	if e != 0 {
		return neg1, 0, uintptr(e)
	}
	return uintptr(r), 0, 0
}

// run applies the fault plan around an operation.
func (k *Kernel) run(sys, path string, write bool, flags string, op func() (int64, int)) (int64, int) {
	f := k.fault(sys, path, write)
	if f != nil && f.Errno != 0 {
		if f.After || sys == "close" {
			op()
		}
		k.record(sys, path, -1, f.Errno, true, flags)
		return -1, f.Errno
	}
	r, e := op()
	k.record(sys, path, r, e, f != nil, flags)
	return r, e
}

func (k *Kernel) call(trap, a1, a2, a3, a4, a5, a6 uintptr) (int64, int) {
	switch trap {
	case syscall.SYS_OPENAT:
		return k.open(int(int32(a1)), cstr(a2), int(a3), uint32(a4))
	case syscall.SYS_OPEN:
		return k.open(atFDCWD, cstr(a1), int(a2), uint32(a3))
	case syscall.SYS_CLOSE:
		fd := int(int32(a1))
		f := k.fds[fd]
		if f == nil {
			return -1, vk.EBADF
		}
		// the descriptor is released even when close reports an error
		return k.run("close", f.path, f.flags&3 != 0, "", func() (int64, int) { return 0, k.closefd(fd) })
	case syscall.SYS_READ:
		return k.read(int(int32(a1)), mem(a2, int(a3)), -1)
	case syscall.SYS_PREAD64:
		return k.read(int(int32(a1)), mem(a2, int(a3)), int64(a4))
	case syscall.SYS_WRITE:
		return k.write(int(int32(a1)), mem(a2, int(a3)), -1)
	case syscall.SYS_PWRITE64:
		return k.write(int(int32(a1)), mem(a2, int(a3)), int64(a4))
	case syscall.SYS_READV, syscall.SYS_PREADV:
		return -1, vk.ENOSYS
	case syscall.SYS_WRITEV:
		fd := int(int32(a1))
		var all []byte
		for i := 0; i < int(a3); i++ {
			v := (*[2]uintptr)(unsafe.Pointer(a2 + uintptr(i)*16))
			all = append(all, mem(v[0], int(v[1]))...)
		}
		return k.write(fd, all, -1)
	case syscall.SYS_LSEEK:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("lseek", f.path, false, "", func() (int64, int) {
			if f.n == nil || f.n.Type == vk.TFifo {
				return -1, vk.ESPIPE
			}
			var o int64
			switch a3 {
			case 0:
				o = int64(a2)
			case 1:
				o = f.off + int64(a2)
			case 2:
				o = int64(len(f.n.Data)) + int64(a2)
			default:
				return -1, vk.EINVAL
			}
			if o < 0 {
				return -1, vk.EINVAL
			}
			f.off = o
			f.listed = false
			f.dirpos = 0
			return o, 0
		})
	case syscall.SYS_FSTAT:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("stat", f.path, false, "", func() (int64, int) {
			k.fillStat(f.n, f, (*syscall.Stat_t)(unsafe.Pointer(a2)))
			return 0, 0
		})
	case syscall.SYS_NEWFSTATAT:
		return k.stat(int(int32(a1)), cstr(a2), a3, int(a4))
	case syscall.SYS_STAT:
		return k.stat(atFDCWD, cstr(a1), a2, 0)
	case syscall.SYS_LSTAT:
		return k.stat(atFDCWD, cstr(a1), a2, 0x100)
	case syscall.SYS_FACCESSAT, 439:
		return k.access(int(int32(a1)), cstr(a2))
	case syscall.SYS_ACCESS:
		return k.access(atFDCWD, cstr(a1))
	case syscall.SYS_GETDENTS64:
		return k.getdents(int(int32(a1)), mem(a2, int(a3)))
	case syscall.SYS_UNLINKAT:
		return k.unlink(int(int32(a1)), cstr(a2), int(a3))
	case syscall.SYS_UNLINK:
		return k.unlink(atFDCWD, cstr(a1), 0)
	case syscall.SYS_RMDIR:
		return k.unlink(atFDCWD, cstr(a1), 0x200)
	case syscall.SYS_RENAMEAT:
		return k.rename(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4), 0)
	case 316: // renameat2
		return k.rename(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4), int(a5))
	case syscall.SYS_RENAME:
		return k.rename(atFDCWD, cstr(a1), atFDCWD, cstr(a2), 0)
	case syscall.SYS_MKDIRAT:
		return k.mkdir(int(int32(a1)), cstr(a2), uint32(a3))
	case syscall.SYS_MKDIR:
		return k.mkdir(atFDCWD, cstr(a1), uint32(a2))
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("fsync", f.path, true, "", func() (int64, int) {
			if f.n == nil || (f.n.Type != vk.TFile && f.n.Type != vk.TDir) {
				return -1, vk.EINVAL
			}
			k.FS.Sync(f.n)
			return 0, 0
		})
	case syscall.SYS_SYNC_FILE_RANGE:
		return 0, 0
	case syscall.SYS_SYNC, 306:
		k.FS.Sync(nil)
		k.record("sync", "", 0, 0, false, "")
		return 0, 0
	case syscall.SYS_FTRUNCATE:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("trunc", f.path, true, "", func() (int64, int) {
			if f.n == nil || f.n.Type != vk.TFile || f.flags&3 == 0 {
				return -1, vk.EINVAL
			}
			k.FS.Trunc(f.n, int64(a2))
			return 0, 0
		})
	case syscall.SYS_TRUNCATE:
		p := cstr(a1)
		return k.run("trunc", k.abs(atFDCWD, p), true, "", func() (int64, int) {
			_, _, n, e := k.FS.Walk(k.cwd, p, true, 0)
			if e != 0 {
				return -1, e
			}
			if n == nil {
				return -1, vk.ENOENT
			}
			if n.Type != vk.TFile {
				return -1, vk.EISDIR
			}
			k.FS.Trunc(n, int64(a2))
			return 0, 0
		})
	case syscall.SYS_FALLOCATE:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("fallocate", f.path, true, "", func() (int64, int) {
			if f.n == nil || f.n.Type != vk.TFile {
				return -1, vk.EINVAL
			}
			if a2 != 0 {
				return -1, 95
			}
			need := int64(a3+a4) - int64(len(f.n.Data))
			if need > 0 {
				if !k.room(need) {
					return -1, vk.ENOSPC
				}
				k.FS.Alloc += need
				k.FS.Trunc(f.n, int64(a3+a4))
			}
			return 0, 0
		})
	case syscall.SYS_FCHMOD:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("chmod", f.path, true, "", func() (int64, int) {
			if f.n == nil {
				return 0, 0
			}
			k.FS.Chmod(f.n, uint32(a2)&07777)
			return 0, 0
		})
	case syscall.SYS_FCHMODAT, 452:
		return k.chmod(int(int32(a1)), cstr(a2), uint32(a3))
	case syscall.SYS_CHMOD:
		return k.chmod(atFDCWD, cstr(a1), uint32(a2))
	case syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
		p := ""
		switch trap {
		case syscall.SYS_FCHOWN:
			f := k.fds[int(int32(a1))]
			if f == nil {
				return -1, vk.EBADF
			}
			p = f.path
		case syscall.SYS_FCHOWNAT:
			p = k.abs(int(int32(a1)), cstr(a2))
		default:
			p = k.abs(atFDCWD, cstr(a1))
		}
		return k.run("chown", p, true, "", func() (int64, int) { return 0, 0 })
	case syscall.SYS_UTIMENSAT:
		return 0, 0
	case syscall.SYS_READLINKAT:
		return k.readlink(int(int32(a1)), cstr(a2), mem(a3, int(a4)))
	case syscall.SYS_READLINK:
		return k.readlink(atFDCWD, cstr(a1), mem(a2, int(a3)))
	case syscall.SYS_SYMLINKAT:
		return k.symlink(cstr(a1), int(int32(a2)), cstr(a3))
	case syscall.SYS_SYMLINK:
		return k.symlink(cstr(a1), atFDCWD, cstr(a2))
	case syscall.SYS_LINKAT:
		return k.link(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4))
	case syscall.SYS_LINK:
		return k.link(atFDCWD, cstr(a1), atFDCWD, cstr(a2))
	case syscall.SYS_GETCWD:
		p := k.FS.PathOf(k.cwd)
		return k.run("getcwd", p, false, "", func() (int64, int) {
			b := mem(a1, int(a2))
			if len(b) < len(p)+1 {
				return -1, vk.ERANGE
			}
			copy(b, p)
			b[len(p)] = 0
			return int64(len(p) + 1), 0
		})
	case syscall.SYS_CHDIR:
		p := cstr(a1)
		return k.run("chdir", k.abs(atFDCWD, p), false, "", func() (int64, int) {
			_, _, n, e := k.FS.Walk(k.cwd, p, true, 0)
			if e != 0 {
				return -1, e
			}
			if n == nil {
				return -1, vk.ENOENT
			}
			if n.Type != vk.TDir {
				return -1, vk.ENOTDIR
			}
			k.cwd = n
			return 0, 0
		})
	case syscall.SYS_FCHDIR:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		if f.n == nil || f.n.Type != vk.TDir {
			return -1, vk.ENOTDIR
		}
		k.cwd = f.n
		return 0, 0
	case syscall.SYS_FCNTL:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		switch a2 {
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			return k.newfd(f)
		case syscall.F_GETFL:
			return int64(f.flags &^ syscall.O_CREAT &^ syscall.O_TRUNC &^ syscall.O_EXCL), 0
		}
		return 0, 0
	case syscall.SYS_DUP:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.newfd(f)
	case syscall.SYS_DUP2, syscall.SYS_DUP3:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		k.closefd(int(int32(a2)))
		f.refs++
		k.fds[int(int32(a2))] = f
		return int64(int32(a2)), 0
	case syscall.SYS_FLOCK:
		f := k.fds[int(int32(a1))]
		if f == nil {
			return -1, vk.EBADF
		}
		return k.run("flock", f.path, false, "", func() (int64, int) { return 0, 0 })
	case syscall.SYS_IOCTL:
		return -1, vk.ENOTTY
	case 318: // getrandom
		b := mem(a1, int(a2))
		for i := range b {
			b[i] = byte(i*7 + 13)
		}
		return int64(len(b)), 0
	case 326, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, 437, 332, 424, 434:
		return -1, vk.ENOSYS
	case syscall.SYS_EPOLL_CTL, syscall.SYS_EPOLL_CREATE1:
		return -1, vk.EPERM
	}
	if len(k.Unknown) < 20 {
		k.Unknown = append(k.Unknown, "syscall "+itoa(int(trap)))
	}
	return -1, vk.ENOSYS
}

func (k *Kernel) closefd(fd int) int {
	f := k.fds[fd]
	if f == nil {
		return vk.EBADF
	}
	delete(k.fds, fd)
	f.refs--
	return 0
}

func (k *Kernel) newfd(f *openFile) (int64, int) {
	if k.Job.MaxFD > 0 {
		n := 0
		for fd := range k.fds {
			if fd >= fdBase {
				n++
			}
		}
		if n >= k.Job.MaxFD {
			k.Injected["open:EMFILE-limit"]++
			return -1, vk.EMFILE
		}
	}
	fd := fdBase
	for k.fds[fd] != nil {
		fd++
	}
	f.refs++
	k.fds[fd] = f
	return int64(fd), 0
}

func (k *Kernel) room(n int64) bool {
	return k.Job.DiskFree <= 0 || k.FS.Alloc+n <= k.Job.DiskFree
}

func (k *Kernel) denied(n *vk.Inode, want uint32) bool {
	if k.Job.Uid == 0 {
		return false
	}
	return n.Mode>>6&want != want
}

func (k *Kernel) open(dirfd int, p string, flags int, mode uint32) (int64, int) {
	abs := k.abs(dirfd, p)
	acc := flags & 3
	fl := "r"
	if acc != 0 {
		fl = "w"
	}
	if flags&syscall.O_CREAT != 0 {
		fl += "c"
	}
	if flags&syscall.O_TRUNC != 0 {
		fl += "t"
	}
	if flags&syscall.O_EXCL != 0 {
		fl += "x"
	}
	return k.run("open", abs, acc != 0 || flags&syscall.O_CREAT != 0, fl, func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		switch abs {
		case "/dev/stdout", "/proc/self/fd/1", "/dev/fd/1":
			return k.newfd(k.fds1(1))
		case "/dev/stderr", "/proc/self/fd/2", "/dev/fd/2":
			return k.newfd(k.fds1(2))
		}
		follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
		d, name, n, e := k.FS.Walk(b, p, follow, 0)
		if e != 0 {
			return -1, e
		}
		if n != nil {
			if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
				return -1, vk.EEXIST
			}
			if n.Type == vk.TLink {
				return -1, vk.ELOOP
			}
			if n.Type == vk.TDir && (acc != 0 || flags&syscall.O_CREAT != 0) {
				return -1, vk.EISDIR
			}
			if n.Type != vk.TDir && flags&syscall.O_DIRECTORY != 0 {
				return -1, vk.ENOTDIR
			}
			if (acc != syscall.O_WRONLY && k.denied(n, 4)) || (acc != 0 && k.denied(n, 2)) {
				return -1, vk.EACCES
			}
		} else {
			if flags&syscall.O_CREAT == 0 {
				return -1, vk.ENOENT
			}
			if strings.HasSuffix(p, "/") {
				return -1, vk.EISDIR
			}
			if k.denied(d, 3) {
				return -1, vk.EACCES
			}
			if !k.room(1) {
				k.Injected["open:ENOSPC-full"]++
				return -1, vk.ENOSPC
			}
		}
		f := &openFile{n: n, path: abs, flags: flags}
		fd, e := k.newfd(f)
		if e != 0 {
			return -1, e
		}
		if n == nil {
			f.n = k.FS.Create(d, name, vk.TFile, mode&07777&^022, "")
		} else if flags&syscall.O_TRUNC != 0 && n.Type == vk.TFile && acc != 0 {
			k.FS.Alloc -= int64(len(n.Data))
			k.FS.Trunc(n, 0)
		}
		if x := k.FS.PathOf; f.n.Type == vk.TDir {
			f.path = x(f.n)
		}
		return fd, 0
	})
}

func (k *Kernel) fds1(std int) *openFile {
	if f := k.fds[std]; f != nil {
		return f
	}
	return &openFile{std: std, path: "/dev/std"}
}

func (k *Kernel) read(fd int, b []byte, at int64) (int64, int) {
	f := k.fds[fd]
	if f == nil {
		return -1, vk.EBADF
	}
	flt := k.fault("read", f.path, false)
	if flt != nil && flt.Errno != 0 {
		k.record("read", f.path, -1, flt.Errno, true, "")
		return -1, flt.Errno
	}
	if f.stdin {
		return 0, 0
	}
	if f.std != 0 || f.flags&3 == syscall.O_WRONLY {
		return -1, vk.EBADF
	}
	if f.n.Type == vk.TDir {
		return -1, vk.EISDIR
	}
	if f.n.Type == vk.TChar || f.n.Type == vk.TFifo {
		return 0, 0
	}
	off := f.off
	if at >= 0 {
		off = at
	}
	var src []byte
	if off < int64(len(f.n.Data)) {
		src = f.n.Data[off:]
	}
	if len(b) < len(src) {
		src = src[:len(b)]
	}
	if flt != nil && flt.Short > 0 && flt.Short < len(src) {
		src = src[:flt.Short]
	}
	copy(b, src)
	if at < 0 {
		f.off += int64(len(src))
	}
	k.record("read", f.path, int64(len(src)), 0, flt != nil, "")
	return int64(len(src)), 0
}

func (k *Kernel) write(fd int, b []byte, at int64) (int64, int) {
	f := k.fds[fd]
	if f == nil {
		return -1, vk.EBADF
	}
	if f.std != 0 {
		mode := k.Job.Stdout
		if f.std == 2 {
			mode = k.Job.Stderr
		}
		e := 0
		switch mode {
		case "closed":
			e = vk.EBADF
		case "pipe":
			e = vk.EPIPE
		case "full":
			e = vk.ENOSPC
		}
		if e != 0 {
			k.Injected["stdio:"+errName(e)]++
			k.record("write", f.path, -1, e, true, "")
			return -1, e
		}
	} else if f.flags&3 == syscall.O_RDONLY {
		return -1, vk.EBADF
	}
	flt := k.fault("write", f.path, true)
	if flt != nil && flt.Errno != 0 && !flt.After {
		k.record("write", f.path, -1, flt.Errno, true, "")
		return -1, flt.Errno
	}
	n := len(b)
	if flt != nil && flt.Short > 0 && flt.Short < n {
		n = flt.Short
	}
	if f.std == 0 && f.n.Type == vk.TFile {
		off := f.off
		if at >= 0 {
			off = at
		}
		if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(f.n.Data))
		}
		grow := off + int64(n) - int64(len(f.n.Data))
		if grow > 0 && !k.room(grow) {
			left := k.Job.DiskFree - k.FS.Alloc
			n -= int(grow - left)
			k.Injected["write:ENOSPC-full"]++
			if left <= 0 || n <= 0 {
				k.record("write", f.path, -1, vk.ENOSPC, true, "")
				return -1, vk.ENOSPC
			}
		}
		k.FS.Write(f.n, off, b[:n])
		if at < 0 {
			f.off = off + int64(n)
		}
	} else if f.std == 1 {
		k.Stdout = append(k.Stdout, b[:n]...)
	} else if f.std == 2 {
		k.Stderr = append(k.Stderr, b[:n]...)
	} else {
		k.FS.Write(f.n, 0, b[:n])
	}
	if flt != nil && flt.Errno != 0 {
		k.record("write", f.path, -1, flt.Errno, true, "")
		return -1, flt.Errno
	}
	k.record("write", f.path, int64(n), 0, flt != nil, "")
	return int64(n), 0
}

func (k *Kernel) fillStat(n *vk.Inode, f *openFile, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Blksize: 4096}
	if n == nil {
		st.Mode = syscall.S_IFIFO | 0600
		return
	}
	st.Ino = uint64(n.Ino)
	st.Dev = uint64(n.Dev)
	st.Nlink = uint64(n.Nlink)
	st.Mode = n.Mode & 07777
	switch n.Type {
	case vk.TDir:
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case vk.TLink:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.Target))
	case vk.TChar:
		st.Mode |= syscall.S_IFCHR
		st.Rdev = 0x103
	case vk.TFifo:
		st.Mode |= syscall.S_IFIFO
	default:
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(n.Data))
	}
	st.Mtim.Sec = 1700000000
	st.Ctim.Sec = 1700000000
	st.Atim.Sec = 1700000000
}

func (k *Kernel) stat(dirfd int, p string, buf uintptr, flags int) (int64, int) {
	abs := k.abs(dirfd, p)
	return k.run("stat", abs, false, "", func() (int64, int) {
		if p == "" && flags&0x1000 != 0 {
			f := k.fds[dirfd]
			if f == nil {
				return -1, vk.EBADF
			}
			k.fillStat(f.n, f, (*syscall.Stat_t)(unsafe.Pointer(buf)))
			return 0, 0
		}
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		_, _, n, e := k.FS.Walk(b, p, flags&0x100 == 0, 0)
		if e != 0 {
			return -1, e
		}
		if n == nil {
			return -1, vk.ENOENT
		}
		k.fillStat(n, nil, (*syscall.Stat_t)(unsafe.Pointer(buf)))
		return 0, 0
	})
}

func (k *Kernel) access(dirfd int, p string) (int64, int) {
	abs := k.abs(dirfd, p)
	return k.run("stat", abs, false, "", func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		_, _, n, e := k.FS.Walk(b, p, true, 0)
		if e != 0 {
			return -1, e
		}
		if n == nil {
			return -1, vk.ENOENT
		}
		return 0, 0
	})
}

func (k *Kernel) getdents(fd int, b []byte) (int64, int) {
	f := k.fds[fd]
	if f == nil {
		return -1, vk.EBADF
	}
	return k.run("getdents", f.path, false, "", func() (int64, int) {
		if f.n == nil || f.n.Type != vk.TDir {
			return -1, vk.ENOTDIR
		}
		if !f.listed {
			f.dirs = append([]vk.Dirent{}, f.n.Ents...)
			if s := k.Job.ShuffleDirs; s != 0 {
				for i := len(f.dirs) - 1; i > 0; i-- {
					s = s*6364136223846793005 + 1442695040888963407
					j := int((s >> 33) % uint64(i+1))
					f.dirs[i], f.dirs[j] = f.dirs[j], f.dirs[i]
				}
			}
			f.listed = true
			f.dirpos = 0
		}
		o := 0
		for f.dirpos < len(f.dirs) {
			e := f.dirs[f.dirpos]
			l := (19 + len(e.Name) + 1 + 7) &^ 7
			if o+l > len(b) {
				break
			}
			n := k.FS.In[e.Ino]
			*(*uint64)(unsafe.Pointer(&b[o])) = uint64(e.Ino)
			*(*int64)(unsafe.Pointer(&b[o+8])) = int64(f.dirpos + 1)
			*(*uint16)(unsafe.Pointer(&b[o+16])) = uint16(l)
			t := byte(8)
			switch n.Type {
			case vk.TDir:
				t = 4
			case vk.TLink:
				t = 10
			case vk.TChar:
				t = 2
			case vk.TFifo:
				t = 1
			}
			b[o+18] = t
			for i := 19; i < l; i++ {
				b[o+i] = 0
			}
			copy(b[o+19:], e.Name)
			o += l
			f.dirpos++
		}
		if o == 0 && f.dirpos < len(f.dirs) {
			return -1, vk.EINVAL
		}
		return int64(o), 0
	})
}

func (k *Kernel) unlink(dirfd int, p string, flags int) (int64, int) {
	abs := k.abs(dirfd, p)
	sys := "unlink"
	if flags&0x200 != 0 {
		sys = "rmdir"
	}
	return k.run(sys, abs, true, "", func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		d, name, n, e := k.FS.Walk(b, p, false, 0)
		if e != 0 {
			return -1, e
		}
		if n == nil {
			return -1, vk.ENOENT
		}
		if k.denied(d, 3) {
			return -1, vk.EACCES
		}
		if flags&0x200 != 0 {
			if n.Type != vk.TDir {
				return -1, vk.ENOTDIR
			}
			if len(n.Ents) > 0 {
				return -1, vk.ENOTEMPTY
			}
			if name == "." || name == ".." {
				return -1, vk.EINVAL
			}
		} else if n.Type == vk.TDir {
			return -1, vk.EISDIR
		}
		k.FS.Unlink(d, name)
		return 0, 0
	})
}

func (k *Kernel) rename(fd1 int, p1 string, fd2 int, p2 string, flags int) (int64, int) {
	a1, a2 := k.abs(fd1, p1), k.abs(fd2, p2)
	op := func() (int64, int) {
		b1, e := k.base(fd1)
		if e != 0 {
			return -1, e
		}
		b2, e := k.base(fd2)
		if e != 0 {
			return -1, e
		}
		d1, n1, x, e := k.FS.Walk(b1, p1, false, 0)
		if e != 0 {
			return -1, e
		}
		if x == nil {
			return -1, vk.ENOENT
		}
		d2, n2, y, e := k.FS.Walk(b2, p2, false, 0)
		if e != 0 {
			return -1, e
		}
		if d1.Dev != d2.Dev {
			return -1, vk.EXDEV
		}
		if k.denied(d1, 3) || k.denied(d2, 3) {
			return -1, vk.EACCES
		}
		if flags&1 != 0 && y != nil {
			return -1, vk.EEXIST
		}
		if flags&2 != 0 {
			return -1, vk.EINVAL
		}
		if y != nil {
			if x.Type == vk.TDir && y.Type != vk.TDir {
				return -1, vk.ENOTDIR
			}
			if y.Type == vk.TDir && x.Type != vk.TDir {
				return -1, vk.EISDIR
			}
			if y.Type == vk.TDir && len(y.Ents) > 0 {
				return -1, vk.ENOTEMPTY
			}
		}
		k.FS.Rename(d1, n1, d2, n2)
		return 0, 0
	}
	// a fault may name either path
	if f := k.fault("rename", a2, true); f != nil && f.Errno != 0 {
		if f.After {
			op()
		}
		k.record("rename", a1+" -> "+a2, -1, f.Errno, true, "")
		return -1, f.Errno
	}
	r, e := op()
	k.record("rename", a1+" -> "+a2, r, e, false, "")
	return r, e
}

func (k *Kernel) mkdir(dirfd int, p string, mode uint32) (int64, int) {
	abs := k.abs(dirfd, p)
	return k.run("mkdir", abs, true, "", func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		d, name, n, e := k.FS.Walk(b, p, false, 0)
		if e != 0 {
			return -1, e
		}
		if n != nil {
			return -1, vk.EEXIST
		}
		if k.denied(d, 3) {
			return -1, vk.EACCES
		}
		if !k.room(1) {
			return -1, vk.ENOSPC
		}
		k.FS.Create(d, name, vk.TDir, mode&07777&^022, "")
		return 0, 0
	})
}

func (k *Kernel) chmod(dirfd int, p string, mode uint32) (int64, int) {
	abs := k.abs(dirfd, p)
	return k.run("chmod", abs, true, "", func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		_, _, n, e := k.FS.Walk(b, p, true, 0)
		if e != 0 {
			return -1, e
		}
		if n == nil {
			return -1, vk.ENOENT
		}
		k.FS.Chmod(n, mode&07777)
		return 0, 0
	})
}

func (k *Kernel) readlink(dirfd int, p string, buf []byte) (int64, int) {
	abs := k.abs(dirfd, p)
	return k.run("readlink", abs, false, "", func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		_, _, n, e := k.FS.Walk(b, p, false, 0)
		if e != 0 {
			return -1, e
		}
		if n == nil {
			return -1, vk.ENOENT
		}
		if n.Type != vk.TLink {
			return -1, vk.EINVAL
		}
		return int64(copy(buf, n.Target)), 0
	})
}

func (k *Kernel) symlink(target string, dirfd int, p string) (int64, int) {
	abs := k.abs(dirfd, p)
	return k.run("symlink", abs, true, "", func() (int64, int) {
		b, e := k.base(dirfd)
		if e != 0 {
			return -1, e
		}
		d, name, n, e := k.FS.Walk(b, p, false, 0)
		if e != 0 {
			return -1, e
		}
		if n != nil {
			return -1, vk.EEXIST
		}
		k.FS.Create(d, name, vk.TLink, 0777, target)
		return 0, 0
	})
}

func (k *Kernel) link(fd1 int, p1 string, fd2 int, p2 string) (int64, int) {
	abs := k.abs(fd2, p2)
	return k.run("link", abs, true, "", func() (int64, int) {
		b1, e := k.base(fd1)
		if e != 0 {
			return -1, e
		}
		b2, e := k.base(fd2)
		if e != 0 {
			return -1, e
		}
		_, _, x, e := k.FS.Walk(b1, p1, false, 0)
		if e != 0 {
			return -1, e
		}
		if x == nil {
			return -1, vk.ENOENT
		}
		d, name, y, e := k.FS.Walk(b2, p2, false, 0)
		if e != 0 {
			return -1, e
		}
		if y != nil {
			return -1, vk.EEXIST
		}
		if d.Dev != x.Dev {
			return -1, vk.EXDEV
		}
		k.FS.Link(d, name, x)
		return 0, 0
	})
}

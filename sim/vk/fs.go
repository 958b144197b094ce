package vk

import (
	"encoding/base64"
	"sort"
	"strings"
	"unicode/utf8"
)

// Inode types.
const (
	TFile = iota
	TDir
	TLink
	TChar
	TFifo
)

// JOp is one journalled change of the disk.
type JOp struct {
	K     string `json:"k"` // create link unlink rename write trunc chmod sync syncall
	Ino   int    `json:"i,omitempty"`
	Dir   int    `json:"d,omitempty"`
	Name  string `json:"n,omitempty"`
	Dir2  int    `json:"d2,omitempty"`
	Name2 string `json:"n2,omitempty"`
	Off   int64  `json:"o,omitempty"`
	Data  string `json:"x,omitempty"`
	B64   bool   `json:"b,omitempty"`
	Type  int    `json:"t,omitempty"`
	Mode  uint32 `json:"m,omitempty"`
	Step  int64  `json:"s,omitempty"`
}

// Bytes returns the data of a write operation.
func (j JOp) Bytes() []byte { return dec(j.Data, j.B64) }

func enc(b []byte) (string, bool) {
	s := string(b)
	if utf8.ValidString(s) {
		return s, false
	}
	return base64.StdEncoding.EncodeToString(b), true
}

func dec(s string, b bool) []byte {
	if b {
		x, _ := base64.StdEncoding.DecodeString(s)
		return x
	}
	return []byte(s)
}

// Dirent is a directory entry.
type Dirent struct {
	Name string
	Ino  int
}

// Inode of the virtual file system.
type Inode struct {
	Ino    int
	Type   int
	Mode   uint32
	Data   []byte
	Target string
	Ents   []Dirent
	Nlink  int
	Dev    uint32
	Parent int
	Uid    int
	Mtime  int64
}

// FS is the virtual file system. Inode numbers start at 2 (root).
type FS struct {
	In      []*Inode // index = ino
	Journal []JOp
	Record  bool
	Step    int64
	Alloc   int64
}

// NewFS makes an empty file system.
func NewFS() *FS {
	f := &FS{}
	f.In = make([]*Inode, 3)
	f.In[2] = &Inode{Ino: 2, Type: TDir, Mode: 0755, Nlink: 2, Dev: 1, Parent: 2}
	return f
}

func (f *FS) find(d *Inode, name string) (*Inode, int) {
	for i := range d.Ents {
		if d.Ents[i].Name == name {
			return f.In[d.Ents[i].Ino], i
		}
	}
	return nil, -1
}

// NewInode allocates an inode.
func (f *FS) NewInode(typ int, mode uint32, dev uint32) *Inode {
	n := &Inode{Ino: len(f.In), Type: typ, Mode: mode, Nlink: 0, Dev: dev}
	f.In = append(f.In, n)
	return n
}

// Load puts an image onto the file system (not journalled).
func (f *FS) Load(img Image) {
	rec := f.Record
	f.Record = false
	for _, n := range img {
		f.PutNode(n)
	}
	f.Record = rec
}

// PutNode creates or replaces a node with its parents.
func (f *FS) PutNode(n Node) {
	parts := split(n.Path)
	d := f.In[2]
	if len(parts) == 0 {
		if n.Mode != 0 {
			d.Mode = n.Mode
		}
		return
	}
	for _, p := range parts[:len(parts)-1] {
		x, _ := f.find(d, p)
		if x != nil && x.Type == TLink {
			// follow through the generic resolver
			r, _ := f.Lookup(join(f.PathOf(d), p), true)
			x = r
		}
		if x == nil {
			x = f.NewInode(TDir, 0755, d.Dev)
			x.Parent = d.Ino
			x.Nlink = 2
			d.Ents = append(d.Ents, Dirent{p, x.Ino})
		}
		d = x
	}
	name := parts[len(parts)-1]
	if n.HardTo != "" {
		x, _ := f.Lookup(n.HardTo, false)
		if x != nil {
			f.setEnt(d, name, x.Ino)
			x.Nlink++
		}
		return
	}
	old, _ := f.find(d, name)
	typ := TFile
	mode := n.Mode
	switch n.Type {
	case "d":
		typ = TDir
		if mode == 0 {
			mode = 0755
		}
	case "l":
		typ = TLink
		mode = 0777
	case "c":
		typ = TChar
		if mode == 0 {
			mode = 0666
		}
	case "f":
		typ = TFifo
		if mode == 0 {
			mode = 0666
		}
	default:
		if mode == 0 {
			mode = 0644
		}
	}
	if typ == TDir && old != nil && old.Type == TDir {
		old.Mode = mode
		return
	}
	dev := d.Dev
	if n.Dev != 0 {
		dev = n.Dev
	}
	x := f.NewInode(typ, mode, dev)
	x.Nlink = 1
	if typ == TDir {
		x.Nlink = 2
		x.Parent = d.Ino
	}
	if typ == TLink {
		x.Target = n.Data
	} else {
		x.Data = dec(n.Data, n.B64)
	}
	f.setEnt(d, name, x.Ino)
}

func (f *FS) setEnt(d *Inode, name string, ino int) {
	if _, i := f.find(d, name); i >= 0 {
		d.Ents[i].Ino = ino
		return
	}
	d.Ents = append(d.Ents, Dirent{name, ino})
}

// RemovePath removes a subtree (not journalled).
func (f *FS) RemovePath(p string) {
	parts := split(p)
	if len(parts) == 0 {
		return
	}
	d := f.In[2]
	for _, x := range parts[:len(parts)-1] {
		d, _ = f.find(d, x)
		if d == nil {
			return
		}
	}
	_, i := f.find(d, parts[len(parts)-1])
	if i >= 0 {
		d.Ents = append(d.Ents[:i:i], d.Ents[i+1:]...)
	}
}

func split(p string) (out []string) {
	for _, x := range strings.Split(p, "/") {
		if x != "" && x != "." {
			out = append(out, x)
		}
	}
	return
}

func join(a, b string) string {
	if a == "/" {
		return "/" + b
	}
	return a + "/" + b
}

// PathOf returns the path of a directory inode.
func (f *FS) PathOf(d *Inode) string {
	if d.Ino == 2 {
		return "/"
	}
	p := f.In[d.Parent]
	for _, e := range p.Ents {
		if e.Ino == d.Ino {
			return join(f.PathOf(p), e.Name)
		}
	}
	return "(deleted)"
}

// PathOfNode returns a path of any inode.
func (f *FS) PathOfNode(n *Inode) string {
	if n.Type == TDir {
		return f.PathOf(n)
	}
	for _, d := range f.In {
		if d == nil || d.Type != TDir {
			continue
		}
		for _, e := range d.Ents {
			if e.Ino == n.Ino {
				return join(f.PathOf(d), e.Name)
			}
		}
	}
	return "(deleted)"
}

// Errno values used by the file system.
const (
	EPERM        = 1
	ENOENT       = 2
	EINTR        = 4
	EIO          = 5
	EBADF        = 9
	EAGAIN       = 11
	ENOMEM       = 12
	EACCES       = 13
	EBUSY        = 16
	EEXIST       = 17
	EXDEV        = 18
	ENOTDIR      = 20
	EISDIR       = 21
	EINVAL       = 22
	ENFILE       = 23
	EMFILE       = 24
	ENOTTY       = 25
	EFBIG        = 27
	ENOSPC       = 28
	ESPIPE       = 29
	EROFS        = 30
	EMLINK       = 31
	EPIPE        = 32
	ERANGE       = 34
	ENAMETOOLONG = 36
	ENOSYS       = 38
	ENOTEMPTY    = 39
	ELOOP        = 40
	ESTALE       = 116
	ETIMEDOUT    = 110
	ENXIO        = 6
	EREMOTEIO    = 121
	EDQUOT       = 122
)

// Lookup resolves an absolute path.
func (f *FS) Lookup(p string, follow bool) (*Inode, int) {
	_, _, n, e := f.Walk(f.In[2], p, follow, 0)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		return nil, ENOENT
	}
	return n, 0
}

// Walk resolves p relative to base. It returns the parent directory, the last
// component, and the inode (nil if the last component does not exist).
func (f *FS) Walk(base *Inode, p string, follow bool, depth int) (dir *Inode, name string, n *Inode, errno int) {
	if depth > 20 {
		return nil, "", nil, ELOOP
	}
	if p == "" {
		return nil, "", nil, ENOENT
	}
	d := base
	if p[0] == '/' {
		d = f.In[2]
	}
	trailing := len(p) > 1 && p[len(p)-1] == '/'
	parts := split(p)
	if len(parts) == 0 {
		return f.In[d.Parent], ".", d, 0
	}
	for i, c := range parts {
		last := i == len(parts)-1
		if d.Type != TDir {
			return nil, "", nil, ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, ENAMETOOLONG
		}
		if c == ".." {
			d = f.In[d.Parent]
			if last {
				return f.In[d.Parent], "..", d, 0
			}
			continue
		}
		x, _ := f.find(d, c)
		if x == nil {
			if last {
				if trailing {
					return d, c, nil, 0
				}
				return d, c, nil, 0
			}
			return nil, "", nil, ENOENT
		}
		if x.Type == TLink && (!last || follow || trailing) {
			dd, nn, y, e := f.Walk(d, x.Target, true, depth+1)
			if e != 0 {
				return nil, "", nil, e
			}
			if last {
				return dd, nn, y, 0
			}
			if y == nil {
				return nil, "", nil, ENOENT
			}
			d = y
			continue
		}
		if last {
			if trailing && x.Type != TDir {
				return nil, "", nil, ENOTDIR
			}
			return d, c, x, 0
		}
		d = x
	}
	return nil, "", nil, ENOENT
}

func (f *FS) log(j JOp) {
	if f.Record {
		j.Step = f.Step
		f.Journal = append(f.Journal, j)
	}
}

// Create makes a new inode under d.
func (f *FS) Create(d *Inode, name string, typ int, mode uint32, target string) *Inode {
	x := f.NewInode(typ, mode, d.Dev)
	x.Nlink = 1
	x.Target = target
	if typ == TDir {
		x.Nlink = 2
		x.Parent = d.Ino
	}
	f.setEnt(d, name, x.Ino)
	f.log(JOp{K: "create", Ino: x.Ino, Dir: d.Ino, Name: name, Type: typ, Mode: mode, Data: target})
	return x
}

// Write data at an offset.
func (f *FS) Write(n *Inode, off int64, b []byte) {
	if n.Type == TChar || n.Type == TFifo {
		n.Data = append(n.Data, b...)
		s, b6 := enc(b)
		f.log(JOp{K: "dev", Ino: n.Ino, Data: s, B64: b6})
		return
	}
	if need := off + int64(len(b)); need > int64(len(n.Data)) {
		nd := make([]byte, need)
		copy(nd, n.Data)
		f.Alloc += need - int64(len(n.Data))
		n.Data = nd
	} else {
		nd := make([]byte, len(n.Data))
		copy(nd, n.Data)
		n.Data = nd
	}
	copy(n.Data[off:], b)
	s, b6 := enc(b)
	f.log(JOp{K: "write", Ino: n.Ino, Off: off, Data: s, B64: b6})
}

// Trunc sets the size.
func (f *FS) Trunc(n *Inode, size int64) {
	if n.Type != TFile {
		return
	}
	nd := make([]byte, size)
	copy(nd, n.Data)
	n.Data = nd
	f.log(JOp{K: "trunc", Ino: n.Ino, Off: size})
}

// Unlink removes an entry.
func (f *FS) Unlink(d *Inode, name string) {
	x, i := f.find(d, name)
	if x == nil {
		return
	}
	d.Ents = append(d.Ents[:i:i], d.Ents[i+1:]...)
	x.Nlink--
	f.log(JOp{K: "unlink", Dir: d.Ino, Name: name})
}

// Link adds an entry.
func (f *FS) Link(d *Inode, name string, n *Inode) {
	f.setEnt(d, name, n.Ino)
	n.Nlink++
	f.log(JOp{K: "link", Dir: d.Ino, Name: name, Ino: n.Ino})
}

// Rename moves an entry, replacing the target.
func (f *FS) Rename(d1 *Inode, n1 string, d2 *Inode, n2 string) {
	x, i := f.find(d1, n1)
	if x == nil {
		return
	}
	if y, _ := f.find(d2, n2); y == x {
		return
	} else if y != nil {
		y.Nlink--
	}
	d1.Ents = append(d1.Ents[:i:i], d1.Ents[i+1:]...)
	f.setEnt(d2, n2, x.Ino)
	if x.Type == TDir {
		x.Parent = d2.Ino
	}
	f.log(JOp{K: "rename", Dir: d1.Ino, Name: n1, Dir2: d2.Ino, Name2: n2})
}

// Chmod changes the mode.
func (f *FS) Chmod(n *Inode, mode uint32) {
	n.Mode = mode
	f.log(JOp{K: "chmod", Ino: n.Ino, Mode: mode})
}

// Sync makes an inode durable.
func (f *FS) Sync(n *Inode) {
	if n == nil {
		f.log(JOp{K: "syncall"})
		return
	}
	f.log(JOp{K: "sync", Ino: n.Ino})
}

// Apply replays one journal operation. part limits a write to its first part
// bytes (-1: all).
func (f *FS) Apply(j JOp, part int) {
	rec := f.Record
	f.Record = false
	defer func() { f.Record = rec }()
	switch j.K {
	case "create":
		for len(f.In) < j.Ino {
			f.In = append(f.In, nil)
		}
		d := f.In[j.Dir]
		f.Create(d, j.Name, j.Type, j.Mode, j.Data)
	case "write":
		b := j.Bytes()
		if part >= 0 && part < len(b) {
			b = b[:part]
		}
		if n := f.In[j.Ino]; n != nil {
			f.Write(n, j.Off, b)
		}
	case "dev":
		f.In[j.Ino].Data = append(f.In[j.Ino].Data, j.Bytes()...)
	case "trunc":
		if n := f.In[j.Ino]; n != nil {
			f.Trunc(n, j.Off)
		}
	case "unlink":
		f.Unlink(f.In[j.Dir], j.Name)
	case "link":
		f.Link(f.In[j.Dir], j.Name, f.In[j.Ino])
	case "rename":
		f.Rename(f.In[j.Dir], j.Name, f.In[j.Dir2], j.Name2)
	case "chmod":
		if n := f.In[j.Ino]; n != nil {
			f.Chmod(n, j.Mode)
		}
	}
}

// Dump returns the file system as an image, sorted by path.
func (f *FS) Dump() (img Image) {
	seen := map[int]string{}
	var rec func(d *Inode, p string)
	rec = func(d *Inode, p string) {
		ents := append([]Dirent{}, d.Ents...)
		sort.Slice(ents, func(i, j int) bool { return ents[i].Name < ents[j].Name })
		for _, e := range ents {
			n := f.In[e.Ino]
			q := join(p, e.Name)
			nd := Node{Path: q, Mode: n.Mode}
			if n.Type != TDir {
				if h, ok := seen[n.Ino]; ok {
					nd.HardTo = h
					nd.Mode = 0
					img = append(img, nd)
					continue
				}
				seen[n.Ino] = q
			}
			switch n.Type {
			case TDir:
				nd.Type = "d"
				if n.Dev != d.Dev {
					nd.Dev = n.Dev
				}
			case TLink:
				nd.Type = "l"
				nd.Data = n.Target
			case TChar:
				nd.Type = "c"
			case TFifo:
				nd.Type = "f"
			default:
				nd.Data, nd.B64 = enc(n.Data)
			}
			img = append(img, nd)
			if n.Type == TDir {
				rec(n, q)
			}
		}
	}
	rec(f.In[2], "/")
	return
}

// Bytes of an image node.
func (n Node) Bytes() []byte { return dec(n.Data, n.B64) }

// MkNode makes a file node from bytes.
func MkNode(path string, b []byte) Node {
	s, b6 := enc(b)
	return Node{Path: path, Data: s, B64: b6}
}

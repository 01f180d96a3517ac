package hspeed

import (
	"path/filepath"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/model"
	"verif.local/harness/sym"
)

// disk is the state of the file system.
type disk struct {
	paths []string
	dir   []bool
	link  []bool
	data  [][]byte
}

func snapshot() *disk {
	d := &disk{}
	for _, p := range model.Paths() {
		d.paths = append(d.paths, p)
		dir := model.IsDir(p)
		d.dir = append(d.dir, dir)
		d.link = append(d.link, model.IsLink(p))
		if dir {
			d.data = append(d.data, nil)
		} else {
			d.data = append(d.data, model.Data(p))
		}
	}
	return d
}

func (d *disk) has(p string) bool {
	for _, o := range d.paths {
		if o == p {
			return true
		}
	}
	return false
}

// unchanged requires that everything in d except own is still there, and that
// there is nothing else now but own and the directories above it.
func (d *disk) unchanged(own string) {
	for i, p := range d.paths {
		if p == own {
			continue
		}
		halt(model.Exists(p), "nothing but the client's own file is removed")
		halt(model.IsDir(p) == d.dir[i] && model.IsLink(p) == d.link[i], "nothing but the client's own file is replaced")
		if !d.dir[i] {
			req(string(model.Data(p)) == string(d.data[i]), "nothing but the client's own file is written to")
		}
	}
	for _, p := range model.Paths() {
		if p == own || d.has(p) {
			continue
		}
		above := false
		for q := filepath.Dir(own); q != "/"; q = filepath.Dir(q) {
			if q == p {
				above = true
			}
		}
		req(above && model.IsDir(p), "nothing but the client's own file and the directories above it is created")
	}
}

// lives runs a client of that name and watches the file system; own is where
// its file has to be.
func lives(name, own string) {
	before := snapshot()
	c, err := speed.NewPCPClient(name)
	if err != nil {
		before.unchanged("")
		return
	}
	before.unchanged("")
	m, err := speed.NewPCPCounter(1, "m")
	halt(err == nil && c.Register(m) == nil, "a metric can be registered")
	if c.Start() != nil {
		before.unchanged(own)
		return
	}
	halt(model.Exists(own) && !model.IsDir(own), "the file of a client lies in the mmv directory under the client's name")
	before.unchanged(own)
	m.Up()
	before.unchanged(own)
	erase := sym.Choose("erase", 2) == 1
	speed.EraseFileOnStop = erase
	halt(c.Stop() == nil, "a client can be stopped")
	speed.EraseFileOnStop = false
	before.unchanged(own)
	req(model.Exists(own) == !erase, "the file is removed exactly when erasing is requested")
}

// C25_name: every name of up to 4 (thorough: 6) arbitrary bytes and longer
// ones with an arbitrary start and end, in an empty or a populated mmv
// directory, run and stopped with or without erasing.
func C25_name() {
	sym.NoNative()
	var name string
	switch n, max := sym.Choose("len", sym.Bound(7, 9)), sym.Bound(5, 7); {
	case n < max:
		name = sym.String("name", n)
	case n == max:
		name = sym.String("a", 1) + "/b" + sym.String("c", 1)
	default:
		name = sym.String("a", 1) + "longer.name-" + sym.String("c", 2)
	}
	if sym.Choose("populated", 2) == 1 {
		model.Put("/tmp/mmv/ab", []byte("a foreign file"))
		model.Put("/tmp/mmv/c", []byte("another one"))
		model.Put("/tmp/ab", []byte("a file besides"))
		model.Put("/tmp/b/c", []byte("a file in another directory"))
		model.Put("/ab", []byte("a file at the root"))
	}
	lives(name, "/tmp/mmv/"+name)
}

// C25_dir: the directory is PCP_TMP_DIR of the configuration below the PCP
// root, or the system's temporary directory, for several values of each and a
// PCP_TMP_DIR with two arbitrary bytes.
func C25_dir() {
	sym.NoNative()
	root := "/"
	switch sym.Choose("root", 3) {
	case 1:
		root = "/opt/pcp"
	case 2:
		root = "/opt/pcp//x/../"
	}
	if root != "/" {
		model.SetEnv("PCP_DIR", root)
	}
	model.SetEnv("PCP_CONF", "/etc/pcp.conf")
	want := "/tmp"
	tmp := sym.Choose("tmp", 6)
	switch tmp {
	case 1:
		model.SetEnv("TMPDIR", "/var/tmp")
		want = "/var/tmp"
	case 2:
		want = "/var/lib/pcp/tmp"
	case 3:
		want = "rel/tmp/"
	case 4:
		b := sym.String("dir", 2)
		for i := 0; i < 2; i++ {
			sym.Assume(b[i] != '\n' && b[i] != '\r' && b[i] != 0 && b[i] != '.' && b[i] < 0x80)
		}
		want = "/v" + b
	case 5:
		want = ""
	}
	if tmp >= 2 {
		model.Put("/etc/pcp.conf", []byte("# comment\nPCP_VAR_DIR=/nowhere\nPCP_TMP_DIR="+want+"\nPCP_LOG_DIR=/var/log\n"))
		want = filepath.Join(root, want)
		model.SetEnv("TMPDIR", "/elsewhere")
	} else if sym.Choose("conf", 2) == 1 {
		model.Put("/etc/pcp.conf", []byte("# comment\nPCP_VAR_DIR=/nowhere\n#PCP_TMP_DIR=/x\n"))
	}
	sym.Reinit("github.com/performancecopilot/speed/v4")
	model.Put("/tmp/mmv/ab", []byte("a foreign file"))
	lives("ab", filepath.Join(want, "mmv", "ab"))
}

// C25_before: what is there before Start under the client's name: nothing, an
// empty or a longer or shorter file, an empty or a non-empty directory, a
// symbolic link to a file, to nothing, to an empty or non-empty directory, or a
// second name of another file; or the mmv directory itself is a file, or a symbolic link to a
// directory or to nothing.  Start, an update and Stop, twice in a row.
func C25_before() {
	sym.NoNative()
	own := "/tmp/mmv/cl"
	old := make([]byte, pick("old", 0, 3, 5000))
	model.Put("/home/f", []byte("a foreign file"))
	model.Put("/home/d/g", []byte("another one"))
	model.PutDir("/home/empty")
	if sym.Choose("neighbour", 2) == 1 {
		model.Put("/tmp/mmv/cl2", []byte("a foreign file"))
		model.Put("/tmp/mmv/cl.tmp", []byte("a foreign file"))
	}
	switch sym.Choose("before", 13) {
	case 1:
		model.Put(own, old)
	case 2:
		model.PutDir(own)
	case 3:
		model.Put(own+"/x", old)
	case 4:
		model.PutLink(own, "/home/f")
	case 5:
		model.PutLink(own, "/home/nothing")
	case 6:
		model.PutLink(own, "../../home/empty")
	case 7:
		model.PutLink(own, "/home/d")
	case 8:
		model.PutHard(own, "/home/f")
	case 9:
		model.PutLink(own, "cl")
	case 10:
		sym.Assume(!model.Exists("/tmp/mmv"))
		model.Put("/tmp/mmv", old)
	case 11:
		sym.Assume(!model.Exists("/tmp/mmv"))
		model.PutLink("/tmp/mmv", "/home/d")
		own = "/home/d/cl"
	case 12:
		sym.Assume(!model.Exists("/tmp/mmv"))
		model.PutLink("/tmp/mmv", "/home/nothing")
	}
	lives("cl", own)
	lives("cl", own)
}

// C25_between: whatever a client with an arbitrary character in its name makes
// or removes on the way, in a first life that finds nothing or the file of an
// earlier run: had it been somebody else's, in every later life it stays.
func C25_between() {
	sym.NoNative()
	name := "cl" + sym.String("name", 1)
	own := "/tmp/mmv/" + name
	if sym.Choose("before", 2) == 1 {
		model.Put(own, make([]byte, pick("old", 0, 5000)))
	}
	lives(name, own)
	for _, p := range model.Touched() {
		if p != own && !model.Exists(p) {
			model.Put(p, []byte("a foreign file"))
		}
	}
	lives(name, own)
}

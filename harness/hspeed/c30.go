package hspeed

import (
	"bytes"
	"path/filepath"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/model"
	"verif.local/harness/sym"
)

func keyByte(b byte) bool {
	return sym.Or(sym.Or(sym.And(b >= 'A', b <= 'Z'), sym.And(b >= '0', b <= '9')), b == '_')
}

// entry gives the value that a configuration defines for a key.
func entry(conf, key string) (val string, ok bool) {
	for from := 0; from < len(conf); {
		to := from
		for to < len(conf) && conf[to] != '\n' {
			to++
		}
		line := conf[from:to]
		from = to + 1
		if len(line) > 0 && line[len(line)-1] == '\r' {
			line = line[:len(line)-1]
		}
		n := 0
		for n < len(line) && keyByte(line[n]) {
			n++
		}
		if n == 0 || n == len(line) || line[n] != '=' {
			continue
		}
		if line[:n] == key {
			val, ok = line[n+1:], true
		}
	}
	return val, ok
}

// where checks where a client's file is, given what the configuration file
// defines.
func where(root, conf string, present bool) {
	sym.Reinit("github.com/performancecopilot/speed/v4")
	req(model.OpenFiles() == 0, "reading the configuration leaves no open file")
	want := "/tmp"
	if v, ok := entry(conf, "PCP_TMP_DIR"); ok && present {
		want = filepath.Join(root, v)
	}
	want = filepath.Join(want, "mmv", "cl")
	c, err := speed.NewPCPClient("cl")
	halt(err == nil, "a client can be created")
	halt(c.Start() == nil, "the client starts")
	req(model.Exists(want), "the file of a client lies where the configuration says")
	halt(c.Stop() == nil, "the client stops")
}

func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] < 0x80, s[i] != 0))
	}
	return s
}

func confLine(id string) string {
	switch sym.Choose("line"+id, 10) {
	case 0:
		l := ascii("all"+id, 13)
		for i := 0; i < len(l); i++ {
			sym.Assume(l[i] != '\n')
		}
		return l
	case 1:
		return "PCP_TMP_DIR=/a" + ascii("end"+id, 2)
	case 2:
		return ascii("start"+id, 2) + "PCP_TMP_DIR=/b"
	case 3:
		return "PCP_TMP_DIR" + ascii("eq"+id, 2) + "/c"
	case 4:
		return ascii("short"+id, sym.Choose("short.len"+id, sym.Bound(3, 4)))
	case 5:
		return "PCP_" + ascii("mid"+id, 1) + "MP_DIR=/d"
	case 6:
		return "export PCP_TMP_DIR=/e"
	case 7:
		return "PCP_TMP_DIR=/f\xff\u00e9=g h"
	case 8:
		return "pcp_tmp_dir=/h"
	}
	return "PCP_TMP_DIR="
}

// C30_lines: a configuration file with a line of one of ten forms with up to
// 13 arbitrary ASCII bytes (line ends among them if up to 3) in one place and up to one
// (thorough: two; a line of 13 arbitrary bytes: none after it) fixed lines
// around it, ending with or without a line end.
func C30_lines() {
	sym.NoNative()
	model.SetEnv("PCP_CONF", "/etc/pcp.conf")
	fixed := []string{"PCP_TMP_DIR=/z", "# a comment PCP_TMP_DIR=/y", "OTHER=/x"}
	end := []string{"\n", "\r\n"}[sym.Choose("end", 2)]
	var conf string
	before := sym.Choose("before", 4)
	line := confLine("0")
	sym.Assume(len(line) != 13 || before != 3)
	if before > 0 {
		conf = fixed[before-1] + end
	}
	conf += line
	if sym.Thorough() || before == 0 && len(line) != 13 {
		if after := sym.Choose("after", 4); after > 0 {
			conf += end + fixed[after-1]
		}
	}
	if sym.Choose("last", 2) == 1 {
		conf += end
	}
	model.Put("/etc/pcp.conf", []byte(conf))
	where("/", conf, true)
}

// C30_location: the configuration file is that of PCP_CONF, or else that of
// PCP_DIR, or else /etc/pcp.conf, and need not exist.
func C30_location() {
	sym.NoNative()
	loc, root := "/etc/pcp.conf", "/"
	if sym.Choose("dir", 2) == 1 {
		root = "/opt/pcp"
		model.SetEnv("PCP_DIR", root)
		loc = "/opt/pcp/etc/pcp.conf"
	}
	model.UnsetEnv("PCP_CONF")
	switch sym.Choose("conf", 4) {
	case 1:
		loc = "/my/pcp.conf"
		model.SetEnv("PCP_CONF", loc)
	case 2:
		loc = ""
		model.SetEnv("PCP_CONF", loc)
	case 3:
		loc = "/nonexistent"
		model.SetEnv("PCP_CONF", loc)
	}
	present := sym.Choose("present", 1<<3)
	conf, found := "", false
	for i, f := range []string{"/etc/pcp.conf", "/opt/pcp/etc/pcp.conf", "/my/pcp.conf"} {
		if present>>i&1 == 0 {
			continue
		}
		t := "PCP_TMP_DIR=/in/" + filepath.Base(filepath.Dir(f)) + string(rune('0'+i)) + "\n"
		model.Put(f, []byte(t))
		if f == loc {
			conf, found = t, true
		}
	}
	where(root, conf, found)
}

// C30_large: a file of 150 lines of which some are entries, among them one of
// 100, 5000 or 60000 characters, before, between or after the one that counts.
func C30_large() {
	sym.NoNative()
	model.SetEnv("PCP_CONF", "/etc/pcp.conf")
	wide := []int{100, 5000, 60000}[sym.Choose("wide", 3)]
	at := []int{0, 70, 149}[sym.Choose("at", 3)]
	start := []string{"# ", "LONG=", "long "}[sym.Choose("start", 3)]
	conf := ""
	for i := 0; i < 150; i++ {
		switch {
		case i == at:
			conf += long(start, 10) + string(bytes.Repeat([]byte("y"), wide))
		case i == 71:
			conf += "PCP_TMP_DIR=/early"
		case i == 148:
			conf += "PCP_TMP_DIR=/late"
		default:
			conf += []string{"# comment", "PCP_OTHER=/x", "", "text"}[i%4]
		}
		conf += "\n"
	}
	model.Put("/etc/pcp.conf", []byte(conf))
	where("/", conf, true)
}

package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fsys is a file system as the saving code sees it. Every operation is a possible crash
// point: after each of them (and in the middle of each write) the watched files must hold
// a complete content. One operation can be made to fail.
type fsys struct {
	s      *Scn
	files  map[string]string // path -> content key; "\x00partial" while being written
	synced map[string]bool
	open   map[string]string // handle -> path
	failAt int               // operation that fails (0: none)
	nops   int
	ops    []string
	watch  func(f *fsys, at string)
	failed string
}

const partial = "\x00partial"

func (f *fsys) arg(c *Call, i int) string {
	v := f.s.I.res(c.st, c.args[i])
	if x, ok := v.(*Iface); ok {
		v = x.v
	}
	if s, ok := v.(*Str); ok {
		if k, ok := s.konst(); ok {
			return k
		}
	}
	return v.key()
}

func (f *fsys) hook(c *Call) (Val, bool) {
	ok := func(v ...Val) (Val, bool) {
		if len(v) == 1 {
			return v[0], true
		}
		return tup(v...), true
	}
	op := func(name string) bool { // does it fail?
		f.nops++
		f.ops = append(f.ops, name+" at "+c.pos)
		if f.nops == f.failAt {
			f.failed = name + " at " + c.pos
			return true
		}
		return false
	}
	ferr := func() Val { return &Sym{t: "err:fs", err: true, nn: true} }
	see := func() { f.watch(f, c.pos) }
	data := func(v Val) string {
		v = f.s.I.res(c.st, v)
		if x, ok := v.(*Iface); ok {
			v = x.v
		}
		return v.key()
	}
	mkfile := func(path string) Val {
		h := fmt.Sprintf("file#%d", len(f.open))
		f.open[h] = path
		return &Ptr{f.s.I.symObj(h, nil), ""}
	}
	handle := func() string {
		p, isP := f.s.I.res(c.st, c.args[0]).(*Ptr)
		if !isP {
			panic(undecided("file operation on an unknown file at " + c.pos))
		}
		return f.open[p.o.name]
	}
	switch c.name {
	case "os.WriteFile", "io/ioutil.WriteFile":
		p, d := f.arg(c, 0), data(c.args[1])
		bad := op("write of " + p)
		f.files[p], f.synced[p] = partial, false
		see()
		if bad {
			return ok(ferr())
		}
		f.files[p] = d
		see()
		return ok(VNil{})
	case "os.Create", "os.OpenFile":
		p := f.arg(c, 0)
		if op("open of " + p) {
			return ok(VNil{}, ferr())
		}
		trunc := c.name == "os.Create"
		wr := true
		if !trunc {
			n, isN := f.s.I.res(c.st, c.args[1]).(*Num)
			fl, err := -1, error(nil)
			if isN {
				fl, err = strconv.Atoi(strings.Trim(n.key(), "()"))
			}
			if !isN || err != nil {
				panic(undecided("flags of os.OpenFile unknown at " + c.pos))
			}
			trunc = fl&0x200 != 0
			wr = fl&3 != 0
		}
		if trunc {
			f.files[p], f.synced[p] = partial, false
			see()
		} else if wr {
			// written over in place
			f.files[p], f.synced[p] = partial, false
			see()
		}
		return ok(mkfile(p), VNil{})
	case "os.CreateTemp", "io/ioutil.TempFile":
		p := f.arg(c, 0) + "/temp(" + f.arg(c, 1) + ")"
		if op("creation of a temporary file") {
			return ok(VNil{}, ferr())
		}
		f.files[p], f.synced[p] = partial, false
		return ok(mkfile(p), VNil{})
	case "os.Open":
		p := f.arg(c, 0)
		if op("open of " + p) {
			return ok(VNil{}, ferr())
		}
		return ok(mkfile(p), VNil{})
	case "(*os.File).Name":
		p := handle()
		if k, isT := strings.CutPrefix(p, ""); isT {
			return strC(k), true
		}
	case "(*os.File).Write", "(*os.File).WriteString":
		p, d := handle(), data(c.args[1])
		bad := op("write of " + p)
		f.files[p], f.synced[p] = partial, false
		see()
		if bad {
			return ok(numI(0), ferr())
		}
		f.files[p] = d
		see()
		return ok(f.s.I.lenV(c.st, c.args[1]), VNil{})
	case "(*os.File).Sync":
		p := handle()
		if op("sync of " + p) {
			return ok(ferr())
		}
		f.synced[p] = true
		return ok(VNil{})
	case "(*os.File).Close":
		if op("close of " + handle()) {
			return ok(ferr())
		}
		return ok(VNil{})
	case "(*os.File).Chmod", "os.Chmod", "os.MkdirAll", "os.Mkdir", "(*os.File).Chown":
		if op(c.name) {
			return ok(ferr())
		}
		return ok(VNil{})
	case "os.Rename", "os.Link":
		a, b := f.arg(c, 0), f.arg(c, 1)
		if op("rename of " + a + " to " + b) {
			return ok(ferr())
		}
		d, has := f.files[a]
		if !has {
			panic(undecided("rename of " + a + ", which is not a file written here, at " + c.pos))
		}
		if !f.synced[a] {
			f.files[b] = d + "\x00unsynced"
		} else {
			f.files[b] = d
		}
		f.synced[b] = f.synced[a]
		if c.name == "os.Rename" {
			delete(f.files, a)
		}
		see()
		return ok(VNil{})
	case "os.Remove", "os.RemoveAll", "syscall.Unlink":
		p := f.arg(c, 0)
		if op("removal of " + p) {
			return ok(ferr())
		}
		for q := range f.files {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(f.files, q)
			}
		}
		see()
		return ok(VNil{})
	case "os.Stat", "os.Lstat":
		p := f.arg(c, 0)
		if _, has := f.files[p]; has {
			return ok(&Sym{t: "fileinfo", nn: true}, VNil{})
		}
		return ok(VNil{}, &Sym{t: "err:notexist", err: true, nn: true})
	case "os.IsNotExist":
		return VBool(strings.Contains(c.args[0].key(), "err:notexist")), true
	}
	if strings.HasPrefix(c.name, "os.") || strings.HasPrefix(c.name, "(*os.File).") || strings.HasPrefix(c.name, "io/ioutil.") || strings.HasPrefix(c.name, "syscall.") || strings.HasPrefix(c.name, "bufio.") || strings.HasPrefix(c.name, "io.") {
		switch c.name {
		case "os.Getenv", "os.Getpid", "os.LookupEnv", "os.Hostname":
			return nil, false
		}
		panic(undecided("file operation " + c.name + " at " + c.pos + " is not modelled"))
	}
	return nil, false
}

// lockDepth replays the lock events of a trace; at each event of the given kinds f is called
// with the kind of lock held ("", "R", "W") and the number of the critical section.
func (s *Scn) lockReplay(f func(e Event, held string, section int)) (held string) {
	sec := 0
	for _, e := range s.st.trace {
		if e.kind == "lock" {
			switch {
			case strings.HasSuffix(e.name, ".RLock"):
				held = "R"
				sec++
			case strings.HasSuffix(e.name, ".Lock"):
				held = "W"
				sec++
			case strings.HasSuffix(e.name, "Unlock"):
				held = ""
			}
		}
		f(e, held, sec)
	}
	return held
}

func init() {
	register(&Rule{id: "C14", title: "saving of the state", minOblig: 60,
		explain: "Abstract interpretation of SaveToJson over a state with unknown quantities and a model of the file system in which every operation is a crash point and every write passes through a partially written file. Classes: with and without the slot's copy; every single file operation failing in turn (enumerated from the code's own operations), marshalling failing (first and second time). Demanded: after every operation the file oracle-data/state.json and the slot's copy hold the complete old or the complete, flushed new content; the new content is one serialisation, made while the state's lock is held for writing and in the same critical section as the hash; it is the entry state, its hash being that of the same state with a blank hash; on success both files hold it, the copy under the state's own slot; any failure is returned as an error; the state is otherwise unchanged and the lock released.",
		assume:  []string{"rename replaces a file atomically (POSIX)", "encoding/json and sha256 are modelled as injective functions of the content"},
		run: func(c *Ctx) {
			save := c.anchor("oracle", "*Oracle", "SaveToJson")
			type cls struct {
				copy bool
				fail int
				json string
			}
			const final = "oracle-data/state.json"
			do := func(k cls) (*Scn, *fsys) {
				nm := "saving"
				if k.copy {
					nm += " with copy"
				}
				s := c.scn(nm)
				s.sameParams("mainnet")
				s.someHistory()
				s.validators(vst{"v1", 1}, vst{"v2", 5}, vst{"v3", 4})
				s.put(".state.StateHash", strC("0xstale"))
				slot := s.get(".state.LatestProcessedSlot").(*Num)
				cp := "oracle-data/state_{dec(" + slot.key() + ")}.json"
				if w, isS := catS(catS(strC("oracle-data/state_"), s.I.decS(slot)), strC(".json")), true; isS {
					cp = w.key()
				}
				f := &fsys{s: s, files: map[string]string{final: "old", cp: "oldcopy"}, synced: map[string]bool{final: true, cp: true}, open: map[string]string{}, failAt: k.fail}
				bad := map[string]bool{}
				hashed := ""
				f.watch = func(f *fsys, at string) {
					for p, old := range map[string]string{final: "old", cp: "oldcopy"} {
						d, has := f.files[p]
						switch {
						case !has:
							bad[p+" is missing for a moment at "+at] = true
						case d == old:
						case strings.HasSuffix(d, "\x00unsynced"):
							bad[p+" is put in place before its content is flushed, at "+at] = true
						case d == partial:
							bad[p+" is rewritten in place, at "+at+": a crash leaves it half-written"] = true
						}
					}
				}
				s.I.hook = f.hook
				if k.json != "" {
					s.I.fail["encoding/json.MarshalIndent#"+k.json] = true
					s.I.fail["encoding/json.Marshal#"+k.json] = true
					s.name += ", marshalling " + k.json + " fails"
				}
				s.begin()
				n0 := len(s.st.trace)
				s.call(save, s.or, VBool(k.copy))
				s.st.trace = s.st.trace[n0:]
				if k.fail > 0 {
					s.name += ", " + strings.Split(f.failed, " at ")[0] + fmt.Sprintf(" (%d) fails", k.fail)
				}
				if !s.effects("saving changes nothing but the hash", ".state.StateHash") {
					return s, f
				}
				var l []string
				for b := range bad {
					l = append(l, b)
				}
				c.Check(len(l) == 0, "files are whole at every crash point", s.name, s.pos(), "%s", strings.Join(l, "; "))
				// lock
				var js []Event
				var secs []int
				heldBad := ""
				end := s.lockReplay(func(e Event, held string, sec int) {
					if e.kind == "json" {
						js = append(js, e)
						secs = append(secs, sec)
						if held != "W" {
							heldBad = "the state is serialised at " + e.pos + " without holding its lock for writing"
						}
					}
				})
				c.Check(heldBad == "", "serialised under the lock", s.name, s.pos(), "%s", heldBad)
				c.Check(end == "", "lock released", s.name, s.pos(), "%s returns holding the state's lock", shortName(save))
				nn, isnil := s.lastErr()
				if k.fail > 0 || k.json != "" {
					c.Check(nn, "failure is reported", s.name, s.pos(), "%s fails but the save reports %s", f.failed+k.json, s.ret.key())
					return s, f
				}
				c.Check(isnil, "success is reported", s.name, s.pos(), "reports %s", s.ret.key())
				if !c.Check(len(js) >= 2, "state is serialised for its hash and for the file", s.name, s.pos(), "%d serialisations", len(js)) {
					return s, f
				}
				got := f.files[final]
				c.Check(got != "old", "state file is replaced", s.name, s.pos(), "the state file keeps its old content")
				var sn snapshot
				has := false
				same := -1
				for i, e := range js {
					if strAtom(e.name).key() == got {
						sn, has = s.I.snaps[e.name]
						same = i
					}
				}
				if !c.Check(has, "content is one serialisation of the state", s.name, s.pos(), "the state file gets %s", trunc(got, 200)) {
					return s, f
				}
				// the content
				want, g := map[string]string{}, map[string]string{}
				pt := types.NewPointer(c.named("oracle", "OracleState"))
				s.I.leafs(s.exp, s.get(".state"), pt, "", want, 0)
				v := sn.v
				if x, isI := v.(*Iface); isI {
					v = x.v
				}
				s.I.leafs(sn.st, v, pt, "", g, 0)
				gh := g[".StateHash"]
				s.diff("content is the state", g, want, ".StateHash")
				// its hash: that of an earlier serialisation of the same state with a blank hash
				okh := false
				for i, e := range js {
					if i >= same || secs[i] != secs[same] {
						continue
					}
					b := s.I.snaps[e.name]
					bv := b.v
					if x, isI := bv.(*Iface); isI {
						bv = x.v
					}
					w := map[string]string{}
					s.I.leafs(b.st, bv, pt, "", w, 0)
					if w[".StateHash"] != strC("").key() {
						continue
					}
					eq := true
					for k, x := range want {
						if k != ".StateHash" && w[k] != x {
							eq = false
						}
					}
					hashed = catS(strC("0x"), hexOf(&Str{parts: []SPart{{atom: "b:sha256(" + strAtom(e.name).key() + ")", n: 32}}}, true)).key()
					if eq && hashed == gh {
						okh = true
					}
				}
				c.Check(okh, "hash is that of the same state with a blank hash", s.name, s.pos(), "the hash in the file is %s", trunc(gh, 300))
				// the copy
				cd := f.files[cp]
				if k.copy {
					c.Check(cd == got, "copy named after the state's slot", s.name, s.pos(), "%s holds %s; files: %v", cp, trunc(cd, 80), keysOf(f.files))
				} else {
					c.Check(cd == "oldcopy", "no copy unless asked", s.name, s.pos(), "%s is overwritten", cp)
				}
				var extra []string
				for p := range f.files {
					if p != final && p != cp && strings.HasSuffix(p, ".json") {
						extra = append(extra, p)
					}
				}
				c.Check(len(extra) == 0, "no other state files", s.name, s.pos(), "also writes %v", extra)
				return s, f
			}
			for _, cp := range []bool{false, true} {
				_, f := do(cls{copy: cp})
				c.Check(f.nops >= 4, "file operations found", "SaveToJson", "-", "only %d file operations found", f.nops)
				for i := 1; i <= f.nops; i++ {
					if strings.HasPrefix(f.ops[i-1], "close of") && false {
						continue
					}
					do(cls{copy: cp, fail: i})
				}
				for _, j := range []string{"1", "2"} {
					do(cls{copy: cp, json: j})
				}
			}
		}})
}

func keysOf(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

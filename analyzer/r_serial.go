package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

var enumTypes = []string{"ValidatorStatus", "RewardType", "BlockType", "SubscriptionType"}

func methodOf(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

func init() {
	register(&Rule{id: "C13", title: "serialisation of the state", minOblig: 80,
		explain: "(1) For each named enumeration of the state, MarshalJSON and UnmarshalJSON are interpreted on every declared constant: the name written must be non-empty, distinct from all others, and read back as the same constant; a name that no constant writes, and bytes that are no string, must be refused. (2) The type graph of the persisted state is walked: every field exported, with its own JSON key (distinct also when letter case is ignored), not skipped, of a kind that JSON represents; every occurrence of an enumeration whose methods have pointer receivers is addressable when marshalled (below a pointer or slice), so that its name and not its number is written.",
		assume:  []string{"types of other modules with their own MarshalJSON/UnmarshalJSON or MarshalText/UnmarshalText pairs (big.Int, common.Address, types.Log) read back what they write"},
		run: func(c *Ctx) {
			pkg := c.P.Types[modPath+"/oracle"]
			if pkg == nil {
				panic(undecided("package oracle not found"))
			}
			for _, en := range enumTypes {
				t := c.named("oracle", en)
				var consts []*types.Const
				for _, n := range pkg.Scope().Names() {
					if k, ok := pkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
						consts = append(consts, k)
					}
				}
				c.Check(len(consts) >= 2, "constants of "+en, en, "-", "no constants of type %s found", en)
				m, u := c.P.Fn("oracle", "*"+en, "MarshalJSON"), c.P.Fn("oracle", "*"+en, "UnmarshalJSON")
				if m == nil {
					m = c.P.Fn("oracle", en, "MarshalJSON")
				}
				if m == nil || u == nil {
					c.Fail("enumeration has JSON names", en, "-", "%s has no MarshalJSON/UnmarshalJSON pair: it is written as a number", en)
					continue
				}
				c.Touch(m)
				c.Touch(u)
				byName := map[string]string{}
				var used []int64
				for _, k := range consts {
					v, _ := constant.Int64Val(k.Val())
					used = append(used, v)
					s := c.scn(en + " " + k.Name())
					o := s.I.newObj(s.st, t, "entry:enum")
					s.I.store(s.st, &Ptr{o, ""}, t, numI(v), "entry")
					var recv Val = &Ptr{o, ""}
					if _, isP := under(m.Signature.Recv().Type()).(*types.Pointer); !isP {
						recv = numI(v)
					}
					s.call(m, recv)
					if !s.clean("name of a constant") {
						continue
					}
					_, okErr := s.lastErr()
					raw, isS := s.retAt(0).(*Str)
					if !c.Check(okErr && isS, "name of a constant", s.name, s.pos(), "marshals to %s", s.ret.key()) {
						continue
					}
					nm := raw.key()
					c.Check(strings.HasPrefix(nm, `"{json(`) && !strings.HasSuffix(nm, `json("")}"`), "constant is written as a name", s.name, s.pos(), "written as %s", nm)
					if p, dup := byName[nm]; dup {
						c.Fail("names are distinct", s.name, s.pos(), "%s and %s are both written as %s", p, k.Name(), nm)
					} else {
						c.Ok("names are distinct", 1)
					}
					byName[nm] = k.Name()
					// read back over a different value
					o2 := s.I.newObj(s.st, t, "entry:enum2")
					s.I.store(s.st, &Ptr{o2, ""}, t, s.I.Range("before", 0, nil), "entry")
					s.call(u, &Ptr{o2, ""}, raw)
					if !s.clean("name reads back") {
						continue
					}
					got := s.I.res(s.st, s.I.load(s.st, &Ptr{o2, ""}, t, "exit"))
					_, okErr = s.lastErr()
					c.Check(okErr && got.key() == numI(v).key(), "name reads back", s.name, s.pos(), "%s (%d), written as %s, reads back as %s", k.Name(), v, nm, got.key())
				}
				// unknown name, and no string
				for _, bad := range []string{"unknown name", "not a string"} {
					s := c.scn(en + " " + bad)
					o2 := s.I.newObj(s.st, t, "entry:enum2")
					s.I.store(s.st, &Ptr{o2, ""}, t, s.I.Range("before", 0, nil), "entry")
					s.I.Uniq("someothername")
					nm := "json(other)"
					st2 := s.st.clone()
					s.I.snaps = map[string]snapshot{nm: {st2, &Iface{t: types.Typ[types.String], v: strAtom("someothername")}}}
					if bad == "not a string" {
						s.I.fail["encoding/json.Unmarshal"] = true
					}
					s.call(u, &Ptr{o2, ""}, strAtom(nm))
					if s.clean("refusal of an " + bad) {
						nn, _ := s.lastErr()
						c.Check(nn, "unknown names are refused", s.name, s.pos(), "%s is accepted: gives %s", bad, s.ret.key())
					}
				}
			}
			// the type graph
			enums := map[string]bool{}
			for _, e := range enumTypes {
				enums[modPath+"/oracle."+e] = true
			}
			seen := map[string]bool{}
			var walk func(t types.Type, path string, addressable bool)
			walk = func(t types.Type, path string, addressable bool) {
				t = types.Unalias(t)
				if n, ok := t.(*types.Named); ok {
					nm := n.String()
					if enums[nm] {
						m := c.P.Fn("oracle", "*"+n.Obj().Name(), "MarshalJSON")
						c.Check(addressable || m == nil, "enumeration is written by name", path, "-", "%s is not addressable when marshalled: its number is written and its name expected back", path)
						return
					}
					hasM, hasU := methodOf(n, "MarshalJSON") != nil, methodOf(n, "UnmarshalJSON") != nil
					hasT, hasV := methodOf(n, "MarshalText") != nil, methodOf(n, "UnmarshalText") != nil
					if hasM || hasU || hasT || hasV {
						own := n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
						c.Check(!own && (hasM && hasU || hasT && hasV), "custom encoding is a pair", path, "-", "%s (%s) has a custom encoding that is not analysed or has no counterpart", path, nm)
						return
					}
					k := fmt.Sprint(nm, addressable)
					if seen[k] {
						return
					}
					seen[k] = true
				}
				switch u := t.Underlying().(type) {
				case *types.Basic:
					ok := u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
					c.Check(ok, "JSON represents the type exactly", path, "-", "%s has type %s", path, t)
				case *types.Pointer:
					walk(u.Elem(), path, true)
				case *types.Slice:
					walk(u.Elem(), path+"[]", true)
				case *types.Array:
					walk(u.Elem(), path+"[]", addressable)
				case *types.Map:
					b, ok := u.Key().Underlying().(*types.Basic)
					c.Check(ok && b.Info()&(types.IsInteger|types.IsString) != 0, "map keys are names or numbers", path, "-", "%s has key type %s", path, u.Key())
					walk(u.Elem(), path+"[]", false)
				case *types.Struct:
					keys := map[string]string{}
					for i := 0; i < u.NumFields(); i++ {
						f := u.Field(i)
						p := path + "." + f.Name()
						tag := reflect.StructTag(u.Tag(i)).Get("json")
						nm, opts, _ := strings.Cut(tag, ",")
						if !f.Exported() {
							c.Fail("field is saved", p, c.P.pos(f.Pos()), "%s is not exported and is lost by a save and load", p)
							continue
						}
						if tag == "-" {
							c.Fail("field is saved", p, c.P.pos(f.Pos()), "%s is excluded from the JSON", p)
							continue
						}
						c.Ok("field is saved", 1)
						if strings.Contains(opts, "omitempty") || strings.Contains(opts, "omitzero") {
							// an omitted zero reads back as zero, except behind pointers and containers
							b, isB := f.Type().Underlying().(*types.Basic)
							c.Check(isB && b != nil && !enums[types.TypeString(types.Unalias(f.Type()), nil)], "omitted values read back", p, c.P.pos(f.Pos()), "%s is omitted when empty and does not read back as it was", p)
						}
						if nm == "" {
							nm = f.Name()
						}
						if q, dup := keys[strings.ToLower(nm)]; dup {
							c.Fail("JSON keys are distinct", p, c.P.pos(f.Pos()), "%s and %s share the JSON key %q", q, p, nm)
						} else {
							c.Ok("JSON keys are distinct", 1)
						}
						keys[strings.ToLower(nm)] = p
						walk(f.Type(), p, addressable)
					}
				default:
					c.Fail("JSON represents the type exactly", path, "-", "%s has type %s", path, t)
				}
			}
			walk(types.NewPointer(c.named("oracle", "OracleState")), "OracleState", true)
			// loading marshals the state to hash it: by value, top-level fields are then not addressable
			walk(c.named("oracle", "OracleState"), "OracleState", false)
			var ks []string
			for k := range seen {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			c.Check(len(ks) >= 8, "types of the state", "OracleState", "-", "only %v reached", ks)
		}})
}

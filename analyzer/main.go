package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"vsacheck/eng"
)

type property struct {
	id  string
	run func(*Ctx)
}

var properties = map[string]func(*Ctx){}

func reg(id string, f func(*Ctx)) { properties[id] = f }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vsacheck check ID|all [tier] | list | dump pkg name")
		os.Exit(1)
	}
	repo := os.Getenv("VSA_REPO")
	if repo == "" {
		repo = "/repo"
	}
	root := os.Getenv("VSA_VERIF")
	if root == "" {
		root = "/verif"
	}
	switch os.Args[1] {
	case "list":
		for _, id := range ids() {
			fmt.Println(id)
		}
	case "dump":
		p, err := load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(p, os.Args[2], os.Args[3], os.Args[4:])
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkAll(repo, root, os.Args[2], tier))
	default:
		os.Exit(1)
	}
}

func ids() []string {
	var out []string
	for id := range properties {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func checkAll(repo, root, which, tier string) int {
	start := time.Now()
	p, err := load(repo)
	todo := strings.Split(which, ",")
	if which == "all" {
		todo = ids()
	}
	code := 0
	for _, id := range todo {
		t := start
		if len(todo) > 1 {
			t = time.Now()
		}
		f := properties[id]
		var c *Ctx
		if err != nil {
			c = newCtx(&Prog{Dir: repo}, id)
			c.failAt("load", "program", "?", err.Error())
		} else {
			c = newCtx(p, id)
			c.Thorough = tier == "thorough"
			if f == nil {
				c.failAt("check", id, "?", "no such property")
			} else {
				protect(c, f)
			}
		}
		if c.finish(root, tier, t, false) != 0 {
			code = 1
			if os.Getenv("VSA_FIRST") != "" {
				break
			}
		}
	}
	return code
}

func protect(c *Ctx, f func(*Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			var own []string
			for _, l := range st {
				if strings.Contains(l, "/verif/analyzer/") {
					own = append(own, strings.TrimSpace(l))
				}
			}
			if os.Getenv("VSA_DEBUG") != "" {
				fmt.Println(string(debug.Stack()))
			}
			c.failAt("analysis", "internal", strings.Join(own, " < "), fmt.Sprint("the analysis could not handle the program: ", r))
		}
	}()
	f(c)
}

func dump(p *Prog, pkg, name string, opts []string) {
	fn := p.fn(pkg, name)
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	for _, o := range opts {
		if o == "ssa" {
			fn.WriteTo(os.Stdout)
			for _, a := range fn.AnonFuncs {
				a.WriteTo(os.Stdout)
			}
			return
		}
	}
	e := eng.New(p.SSA, p.Module)
	max := 1 << 30
	for _, o := range opts {
		if strings.HasPrefix(o, "opaque=") {
			e.Opaque[strings.TrimPrefix(o, "opaque=")] = true
		}
		if strings.HasPrefix(o, "iter=") {
			fmt.Sscanf(o, "iter=%d", &e.MaxIter)
		}
		e.Alias = e.Alias || o == "alias"
		if strings.HasPrefix(o, "max=") {
			fmt.Sscanf(o, "max=%d", &max)
		}
	}
	ps := e.Run(fn, nil, nil, nil)
	fmt.Println("paths", len(ps), "over", e.Over)
	for i, q := range ps {
		if i >= max {
			break
		}
		fmt.Printf("--- path %d end=%s held=%v\n", i, q.End, q.Held)
		li := 0
		for _, ev := range q.Events {
			for li < len(q.Log) && q.Log[li].Seq <= ev.Seq {
				fmt.Printf("      [%v] %s   %s\n", q.Log[li].Val, q.Log[li].Cond, p.pos(q.Log[li].Pos))
				li++
			}
			fmt.Printf("  %2d %-8s %s recv=%s addr=%s args=%s res=%s mode=%s  %s\n", ev.Seq, ev.Kind, ev.Name, s1(ev.Recv), s1(ev.Addr), sl(ev.Args), sl(ev.Res), ev.Mode, p.pos(ev.Pos))
		}
		for ; li < len(q.Log); li++ {
			fmt.Printf("      [%v] %s\n", q.Log[li].Val, q.Log[li].Cond)
		}
		fmt.Println("  ret", sl(q.Ret))
	}
}

func s1(t *eng.Term) string {
	if t == nil {
		return "-"
	}
	return t.String()
}

func sl(ts []*eng.Term) string {
	var o []string
	for _, t := range ts {
		o = append(o, t.String())
	}
	return "[" + strings.Join(o, ", ") + "]"
}

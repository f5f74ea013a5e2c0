package main

// Part of E01: a request error inside of one item of a list, with everything that keeps state around it

// abortBad are selections on any object that are an error, or can be
func abortBad() []Sel {
	up := func(v Val) Sel { return fld("up").args(Arg{"x", v}) }
	rank := func(v Val) Sel { return fld("rank").args(Arg{"plus", v}) }
	name := fld("name").as("bad")
	return []Sel{
		fld("nope"), fld("nope", fld("a")), fld("nope").args(Arg{"x", vInt("1")}), fld("__typename", fld("a")), fld("__typenam"),
		fld("name", fld("x")), fld("child"), fld("kids"), fld("child", fld("nope")), fld("kids", fld("child")), fld("child", fld("kids", fld("nope"))), fld("label", fld("x")), fld("sub"), fld("sub", fld("nope")), fld("nodes"), fld("nodes", fld("nope")),
		fld("nodes", inline("N1", fld("nope")), fld("label")), fld("nodes", fld("label"), inline("N2", spread("Bad"))),
		up(vStr("a")), up(vFloat("1.5")), up(vVar("nope")), up(vVar("s")), up(vVar("none")), up(vList(vInt("1"))), up(vObj(Arg{"x", vInt("1")})), up(vInt("99999999999999999999")), up(vBool(true)), up(vEnum("A")),
		fld("up").args(Arg{"y", vInt("1")}), fld("up").args(Arg{"x", vInt("1")}, Arg{"y", vInt("1")}), fld("up", fld("a")).args(Arg{"x", vVar("i")}), fld("up", fld("a")).args(Arg{"x", vVar("s")}),
		rank(vStr("a")), rank(vVar("s")), rank(vVar("none")), rank(vList(vVar("i"))), fld("rank").args(Arg{"y", vInt("1")}), fld("rank", fld("a")).args(Arg{"plus", vInt("1")}),
		fld("name").args(Arg{"x", vInt("1")}), fld("fn", fld("a")), fld("bad", fld("a")),
		name.dir(Dir{"nope", nil}), name.dir(Dir{"skip", nil}), name.dir(Dir{"skip", []Arg{{"if", vInt("2")}}}), name.dir(Dir{"skip", []Arg{{"if", vStr("a")}}}), name.dir(Dir{"include", []Arg{{"if", vVar("none")}}}), name.dir(Dir{"include", []Arg{{"no", vBool(true)}}}), name.dir(Dir{"skip", []Arg{{"if", vBool(false)}}}, Dir{"nope", nil}), name.dir(Dir{"fieldOnly", nil}, Dir{"nope", nil}),
		spread("Nope"), spread("Bad"), spread("Worse"), spread("Bad").dir(Dir{"skip", []Arg{{"if", vVar("s")}}}), spread("Fine").dir(Dir{"fieldOnly", nil}), spread("Fine").dir(Dir{"nope", nil}),
		inline("A1", fld("nope")).dir(Dir{"include", []Arg{{"if", vVar("b")}}}), inline("A1", fld("name")).dir(Dir{"nope", nil}), inline("Nope", fld("nope")),
	}
}

func abortPart(c *Chooser, e *Env) *Case {
	bads := abortBad()
	bad := bads[c.Choose(len(bads))]
	pre := [][]Sel{nil, {fld("__typename").as("t")}, {spread("Fine")}, {fld("up").as("p1").args(Arg{"x", vVar("i")})}, {fld("rank").as("p2").args(Arg{"plus", vVar("i")})}}
	post := [][]Sel{nil, {fld("__typename").as("q1")}, {spread("Fine"), fld("__typename").as("q2")}, {fld("up").as("q3").args(Arg{"x", vVar("d")})}, {fld("kids", fld("name").as("q5"), fld("n")).as("q4")}, {fld("name").as("q6").dir(Dir{"skip", []Arg{{"if", vVar("b")}}})}}
	a, b := pre[c.Choose(len(pre))], post[c.Choose(len(post))]
	cat := func(l ...[]Sel) []Sel {
		res := []Sel{}
		for _, s := range l {
			res = append(res, s...)
		}
		return res
	}
	one := []Sel{bad}
	var body []Sel
	on := c.Choose(4)
	switch on {
	case 0:
		body = cat(a, one, b)
	case 1:
		body = cat(a, []Sel{inline("N1", bad)}, b)
	case 2:
		body = cat([]Sel{inline("N2", cat(a, one)...)}, b)
	case 3:
		body = []Sel{spread("Body")}
	}
	hosts := []Sel{
		fld("faces", body...), fld("list", body...), fld("plist", body...), fld("LL", body...), fld("mlist", body...), fld("list", fld("kids", body...), fld("n").as("z")),
		fld("faces", inline("N2", fld("nodes", body...)), fld("label").as("z")), fld("faces", fld("label").as("z"), inline("N1", fld("sub", body...))), fld("obj", body...), fld("errObj", body...), fld("self", fld("faces", body...), fld("num")),
		fld("mobj", fld("kids", fld("kids", body...)), fld("n").as("z")),
	}
	host := hosts[c.Choose(len(hosts))]
	if on == 1 || on == 2 {
		// only where there are interfaces
		switch host.Name {
		case "list", "plist", "LL", "mlist", "obj", "errObj", "mobj":
			if !e.Thorough {
				return nil
			}
		}
	}
	five := vInt("5")
	op := &Op{Kind: "query", Name: "O", Vars: []VarDef{{"i", "Int", nil}, {"s", "String", nil}, {"none", "Int", nil}, {"d", "Int", &five}, {"b", "Boolean", nil}},
		Sel: []Sel{fld("str"), host, fld("list", fld("up").as("after").args(Arg{"x", vVar("d")}), spread("Fine")), fld("num")}}
	d := &Doc{Defs: []any{&Frag{"Worse", "A1", []Sel{fld("name").as("w1"), spread("Bad"), fld("n").as("w2")}}, op, &Frag{"Fine", "A1", []Sel{fld("n").as("f1"), inline("A1", fld("name").as("f2"))}}, &Frag{"Bad", "A1", []Sel{fld("name").as("b1"), inline("A1", fld("nope")), fld("n").as("b2")}}}}
	if on == 3 {
		d.Defs = append(d.Defs, &Frag{"Body", []string{"A1", "Node", "N1"}[c.Choose(3)], cat(a, one, b)})
	}
	return docCase(d, "", `{"i":4,"s":"text","b":false}`, 0)
}

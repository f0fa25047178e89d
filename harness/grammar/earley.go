package grammar

import (
	"fmt"
	"strings"
)

// The grammar in EBNF: ? * + groups and |. Names in lower case are rules; quoted
// texts and upper-case names are terminals.
const ebnf = `
schema : compat? package? import* directive* ;
compat : 'zserio_compatibility_version' '(' STR ')' ';' ;
package : 'package' ID ( '.' ID )* ';' ;
import : 'import' ID '.' ( ID '.' )* ( ID | '*' ) ';' ;
directive : const | rulegroup | subtype | struct | choice | union | enum | bitmask | sqltable | sqldb | service | pubsub | instantiate ;
const : 'const' typeinst ID '=' expr ';' ;
rulegroup : 'rule_group' ID '{' rule* '}' ';' ;
rule : 'rule' expr ';' ;
subtype : 'subtype' typeref ID ';' ;
struct : 'struct' ID tparams? params? '{' field* func* '}' ';' ;
field : align? offset? 'extend'? 'optional'? typeid init? if? constraint? ';' ;
align : 'align' '(' expr ')' ':' ;
offset : expr ':' ;
typeid : 'packed'? 'implicit'? typeinst ID range? ;
range : '[' expr? ']' ;
init : '=' expr ;
if : 'if' expr ;
constraint : ':' expr ;
choice : 'choice' ID tparams? params 'on' expr '{' cases* default? func* '}' ';' ;
cases : case+ cfield? ';' ;
case : 'case' expr ':' ;
default : 'default' ':' cfield? ';' ;
cfield : typeid constraint? ;
union : 'union' ID tparams? params? '{' ufield* func* '}' ';' ;
ufield : cfield ';' ;
enum : 'enum' typeinst ID '{' eitem ( ',' eitem )* ','? '}' ';' ;
eitem : ( '@deprecated' | '@removed' )? ID ( '=' expr )? ;
bitmask : 'bitmask' typeinst ID '{' bitem ( ',' bitem )* ','? '}' ';' ;
bitem : ID ( '=' expr )? ;
sqltable : 'sql_table' ID tparams? ( 'using' ID )? '{' sqlfield* sqldef? sqlrow? '}' ';' ;
sqlfield : 'sql_virtual'? typeinst ID sqlcons? ';' ;
sqldef : sqlcons ';' ;
sqlcons : 'sql' expr ;
sqlrow : 'sql_without_rowid' ';' ;
sqldb : 'sql_database' ID '{' dbfield+ '}' ';' ;
dbfield : typeinst ID ';' ;
service : 'service' ID '{' method* '}' ';' ;
method : typeref ID '(' typeref ')' ';' ;
pubsub : 'pubsub' ID '{' message* '}' ';' ;
message : topic typeref ID ';' ;
topic : ( 'publish' | 'subscribe' )? 'topic' '(' expr ')' ;
func : 'function' typeref ID '(' ')' '{' 'return' expr ';' '}' ;
params : '(' param ( ',' param )* ')' ;
param : typeref ID ;
tparams : '<' ID ( ',' ID )* '>' ;
targs : '<' typeref ( ',' typeref )* '>' ;
instantiate : 'instantiate' typeref ID ';' ;
expr : '(' expr ')' | expr '(' ')' | expr '[' expr ']' | expr '.' ID
     | 'isset' '(' expr ',' expr ')' | 'lengthof' '(' expr ')' | 'valueof' '(' expr ')' | 'numbits' '(' expr ')'
     | ( '+' | '-' | '!' | '~' ) expr
     | expr binop expr | expr '?' expr ':' expr
     | BIN | OCT | DEC | HEX | BOOL | STR | FLOAT | DOUBLE | '@index' | ID ;
binop : '*' | '/' | '%' | '+' | '-' | '<<' | '>' '>' | '<' | '<=' | '>' | '>=' | '==' | '!=' | '&' | '^' | '|' | '&&' | '||' ;
typeref : builtin | ID ( '.' ID )* targs? ;
typeinst : typeref ( args | dynlen )? ;
args : '(' arg ( ',' arg )* ')' ;
arg : 'explicit' ID | expr ;
dynlen : '<' expr '>' ;
builtin : 'int8' | 'int16' | 'int32' | 'int64' | 'uint8' | 'uint16' | 'uint32' | 'uint64' | 'varint' | 'varint16' | 'varint32' | 'varint64'
     | 'varsize' | 'varuint' | 'varuint16' | 'varuint32' | 'varuint64' | ( 'bit' | 'int' ) ':' DEC | 'bit' | 'int' | 'bool' | 'string'
     | 'float16' | 'float32' | 'float64' | 'extern' | 'bytes' ;
`

// sym is a terminal or, with nt >= 0, a rule.
type sym struct {
	t  string
	nt int
}

type prod struct {
	lhs int
	rhs []sym
}

// Grammar is a context-free grammar.
type Grammar struct {
	prods  []prod
	by     [][]int // productions of a rule
	names  map[string]int
	null   []bool
	first  []map[string]bool
	fresh  int
	toks   []string
	at     int
	inRule string
}

// Zserio is the grammar of the language.
var Zserio = compile(ebnf)

func (g *Grammar) nt(name string) int {
	if i, ok := g.names[name]; ok {
		return i
	}
	g.names[name] = len(g.by)
	g.by = append(g.by, nil)
	return g.names[name]
}

func (g *Grammar) add(lhs int, rhs []sym) {
	g.by[lhs] = append(g.by[lhs], len(g.prods))
	g.prods = append(g.prods, prod{lhs, rhs})
}

func (g *Grammar) helper() int {
	g.fresh++
	return g.nt(fmt.Sprintf("%s#%d", g.inRule, g.fresh))
}

func compile(text string) *Grammar {
	g := &Grammar{names: map[string]int{}}
	g.toks = strings.Fields(text)
	for g.at < len(g.toks) {
		g.inRule = g.toks[g.at]
		g.at += 2
		lhs := g.nt(g.inRule)
		g.alts(lhs)
		g.at++ // ;
	}
	for name, i := range g.names {
		if len(g.by[i]) == 0 {
			panic("no rule " + name)
		}
	}
	g.null = make([]bool, len(g.by))
	g.first = make([]map[string]bool, len(g.by))
	for i := range g.first {
		g.first[i] = map[string]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, p := range g.prods {
			all := true
			for _, s := range p.rhs {
				if s.nt < 0 {
					if !g.first[p.lhs][s.t] {
						g.first[p.lhs][s.t], changed = true, true
					}
					all = false
					break
				}
				for t := range g.first[s.nt] {
					if !g.first[p.lhs][t] {
						g.first[p.lhs][t], changed = true, true
					}
				}
				if !g.null[s.nt] {
					all = false
					break
				}
			}
			if all && !g.null[p.lhs] {
				g.null[p.lhs], changed = true, true
			}
		}
	}
	return g
}

// alts parses alternatives up to ; or ).
func (g *Grammar) alts(lhs int) {
	for {
		var seq []sym
	loop:
		for {
			t := g.toks[g.at]
			var s sym
			switch {
			case t == "|" || t == ";" || t[0] == ')':
				break loop
			case t == "(":
				g.at++
				h := g.helper()
				g.alts(h)
				t = g.toks[g.at] // ) with a suffix
				s = g.suffix(sym{nt: h}, strings.TrimPrefix(t, ")"))
			default:
				suf := ""
				if n := len(t); n > 1 && t[0] != '\'' && strings.ContainsRune("?*+", rune(t[n-1])) {
					t, suf = t[:n-1], t[n-1:]
				} else if n > 3 && t[0] == '\'' && t[n-1] != '\'' {
					t, suf = t[:n-1], t[n-1:]
				}
				switch {
				case t[0] == '\'':
					s = sym{t: t[1 : len(t)-1], nt: -1}
				case strings.ToUpper(t) == t:
					s = sym{t: t, nt: -1}
				default:
					s = sym{nt: g.nt(t)}
				}
				s = g.suffix(s, suf)
			}
			seq = append(seq, s)
			g.at++
		}
		g.add(lhs, seq)
		if g.toks[g.at] != "|" {
			return
		}
		g.at++
	}
}

func (g *Grammar) suffix(s sym, suf string) sym {
	if suf == "" {
		return s
	}
	h := g.helper()
	switch suf {
	case "?":
		g.add(h, nil)
		g.add(h, []sym{s})
	case "*":
		g.add(h, nil)
		g.add(h, []sym{{nt: h}, s})
	case "+":
		g.add(h, []sym{s})
		g.add(h, []sym{{nt: h}, s})
	}
	return sym{nt: h}
}

type item struct {
	prod, dot, from int32
}

// Accepts tells whether the tokens are a sentence of the grammar.
func (g *Grammar) Accepts(toks []Tok) bool {
	n := len(toks)
	type set struct {
		items []item
		has   map[item]bool
		wait  map[int32][]item // items waiting for a rule
	}
	sets := make([]*set, n+1)
	mk := func() *set { return &set{has: map[item]bool{}, wait: map[int32][]item{}} }
	start := g.names["schema"]
	sets[0] = mk()
	look := func(k int) string {
		if k < n {
			return toks[k].K
		}
		return ""
	}
	add := func(s *set, it item) {
		if !s.has[it] {
			s.has[it] = true
			s.items = append(s.items, it)
		}
	}
	for _, p := range g.by[start] {
		add(sets[0], item{int32(p), 0, 0})
	}
	for k := 0; k <= n; k++ {
		s := sets[k]
		if s == nil {
			return false
		}
		la := look(k)
		for i := 0; i < len(s.items); i++ {
			it := s.items[i]
			p := g.prods[it.prod]
			if int(it.dot) == len(p.rhs) {
				for _, w := range sets[it.from].wait[int32(p.lhs)] {
					add(s, item{w.prod, w.dot + 1, w.from})
				}
				continue
			}
			x := p.rhs[it.dot]
			if x.nt < 0 {
				if k < n && x.t == la {
					if sets[k+1] == nil {
						sets[k+1] = mk()
					}
					add(sets[k+1], item{it.prod, it.dot + 1, it.from})
				}
				continue
			}
			s.wait[int32(x.nt)] = append(s.wait[int32(x.nt)], it)
			if g.first[x.nt][la] {
				for _, q := range g.by[x.nt] {
					if !g.can(g.prods[q].rhs, la) {
						continue
					}
					add(s, item{int32(q), 0, int32(k)})
				}
			}
			if g.null[x.nt] {
				add(s, item{it.prod, it.dot + 1, it.from})
			}
		}
	}
	for it := range sets[n].has {
		if g.prods[it.prod].lhs == start && it.from == 0 && int(it.dot) == len(g.prods[it.prod].rhs) {
			return true
		}
	}
	return false
}

// can tells whether a sequence may start with the terminal (or be empty).
func (g *Grammar) can(rhs []sym, t string) bool {
	for _, s := range rhs {
		if s.nt < 0 {
			return s.t == t
		}
		if g.first[s.nt][t] {
			return true
		}
		if !g.null[s.nt] {
			return false
		}
	}
	return true
}

// Accepts tells whether a text may be a schema; unsure texts may be.
func Accepts(text string) bool {
	toks, unsure := Lex(text)
	return unsure || Zserio.Accepts(toks)
}

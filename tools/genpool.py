import itertools
A=["int","[]string","*HNamed"]
TA={"int":"tyInt","[]string":"tySlice(tyString)","*HNamed":"tyPtr(tyNamed(pMain, \"HNamed\"))","error":"tyError","HInt":'tyNamed(pMain, "HInt")',"string":"tyString"}
R=["error","HInt"]
out=['''package main

// Made by tools/genpool.py: interface types with methods of every signature of up to
// two arguments and two results (package reflect can not make interface types),
// and types declared with predeclared names.

import "reflect"

func methodPool() []rcase {
	m := func(r reflect.Type, args, results []Ar, variadic bool) rcase {
		return rcase{r, tyIface(nil, Md{"M", &Sg{Args: args, Results: results, Variadic: variadic}}, Md{"N", &Sg{Results: []Ar{ar("", tyInt)}}})}
	}
	return []rcase{''']
def ars(l): return "nil" if not l else "[]Ar{"+", ".join('ar("", %s)'%TA[t] for t in l)+"}"
for n in range(3):
  for args in itertools.product(A,repeat=n):
    for variadic in ([False,True] if args and args[-1].startswith("[]") else [False]):
      for k in range(3):
        for res in itertools.product(R,repeat=k):
          a=list(args)
          if variadic: a[-1]="..."+a[-1][2:]
          rs="" if not res else " "+res[0] if k==1 else " ("+", ".join(res)+")"
          out.append("\t\tm(rt[interface {\n\t\t\tM(%s)%s\n\t\t\tN() int\n\t\t}](), %s, %s, %s),"%(", ".join(a),rs,ars(args),ars(res),"true" if variadic else "false"))
out.append("\t}\n}\n")
K=["bool","string","int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","uintptr","float32","float64","complex64","complex128"]
out.append("type (")
for k in K: out.append("\tbase_%s = %s"%(k,k))
out.append("\tbase_error = error\n)\n")
out.append("func shadowPool() []rcase {\n\ttype (")
for k in K: out.append("\t\t%s base_%s"%(k,k))
out.append("\t\tbyte base_uint8\n\t\trune base_int32\n\t\terror base_error\n\t\tany struct{}\n\t\ttrue []base_int\n\t\tPointer *base_int\n\t)\n\treturn []rcase{")
for k in K+["byte","rune","error","any","true","Pointer"]: out.append('\t\t{rt[%s](), tyNamed(pMain, "%s")},'%(k,k))
out.append("\t}\n}\n")
open("/verif/harness/prop_pool.go","w").write("\n".join(out))

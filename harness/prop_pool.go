package main

// Made by tools/genpool.py: interface types with methods of every signature of up to
// two arguments and two results (package reflect can not make interface types),
// and types declared with predeclared names.

import "reflect"

func methodPool() []rcase {
	m := func(r reflect.Type, args, results []Ar, variadic bool) rcase {
		return rcase{r, tyIface(nil, Md{"M", &Sg{Args: args, Results: results, Variadic: variadic}}, Md{"N", &Sg{Results: []Ar{ar("", tyInt)}}})}
	}
	return []rcase{
		m(rt[interface {
			M()
			N() int
		}](), nil, nil, false),
		m(rt[interface {
			M() error
			N() int
		}](), nil, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M() HInt
			N() int
		}](), nil, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M() (error, error)
			N() int
		}](), nil, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M() (error, HInt)
			N() int
		}](), nil, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M() (HInt, error)
			N() int
		}](), nil, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M() (HInt, HInt)
			N() int
		}](), nil, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int)
			N() int
		}](), []Ar{ar("", tyInt)}, nil, false),
		m(rt[interface {
			M(int) error
			N() int
		}](), []Ar{ar("", tyInt)}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(int) HInt
			N() int
		}](), []Ar{ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int) (error, error)
			N() int
		}](), []Ar{ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(int) (error, HInt)
			N() int
		}](), []Ar{ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int) (HInt, error)
			N() int
		}](), []Ar{ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(int) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, nil, false),
		m(rt[interface {
			M([]string) error
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M([]string) HInt
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string) (error, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M([]string) (error, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string) (HInt, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M([]string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(...string)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, nil, true),
		m(rt[interface {
			M(...string) error
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, true),
		m(rt[interface {
			M(...string) HInt
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(...string) (error, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, true),
		m(rt[interface {
			M(...string) (error, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(...string) (HInt, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, true),
		m(rt[interface {
			M(...string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(*HNamed)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, nil, false),
		m(rt[interface {
			M(*HNamed) error
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed) HInt
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed) (error, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed) (error, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed) (HInt, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, int)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, nil, false),
		m(rt[interface {
			M(int, int) error
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(int, int) HInt
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, int) (error, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(int, int) (error, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, int) (HInt, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(int, int) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, []string)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, nil, false),
		m(rt[interface {
			M(int, []string) error
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(int, []string) HInt
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, []string) (error, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(int, []string) (error, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, []string) (HInt, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(int, []string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, ...string)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, nil, true),
		m(rt[interface {
			M(int, ...string) error
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, true),
		m(rt[interface {
			M(int, ...string) HInt
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(int, ...string) (error, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, true),
		m(rt[interface {
			M(int, ...string) (error, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(int, ...string) (HInt, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, true),
		m(rt[interface {
			M(int, ...string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(int, *HNamed)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, nil, false),
		m(rt[interface {
			M(int, *HNamed) error
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(int, *HNamed) HInt
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, *HNamed) (error, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(int, *HNamed) (error, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(int, *HNamed) (HInt, error)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(int, *HNamed) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyInt), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, int)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, nil, false),
		m(rt[interface {
			M([]string, int) error
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M([]string, int) HInt
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, int) (error, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M([]string, int) (error, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, int) (HInt, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M([]string, int) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, []string)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, nil, false),
		m(rt[interface {
			M([]string, []string) error
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M([]string, []string) HInt
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, []string) (error, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M([]string, []string) (error, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, []string) (HInt, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M([]string, []string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, ...string)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, nil, true),
		m(rt[interface {
			M([]string, ...string) error
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, true),
		m(rt[interface {
			M([]string, ...string) HInt
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M([]string, ...string) (error, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, true),
		m(rt[interface {
			M([]string, ...string) (error, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M([]string, ...string) (HInt, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, true),
		m(rt[interface {
			M([]string, ...string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M([]string, *HNamed)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, nil, false),
		m(rt[interface {
			M([]string, *HNamed) error
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M([]string, *HNamed) HInt
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, *HNamed) (error, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M([]string, *HNamed) (error, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M([]string, *HNamed) (HInt, error)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M([]string, *HNamed) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tySlice(tyString)), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, int)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, nil, false),
		m(rt[interface {
			M(*HNamed, int) error
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, int) HInt
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, int) (error, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, int) (error, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, int) (HInt, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, int) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyInt)}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, []string)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, nil, false),
		m(rt[interface {
			M(*HNamed, []string) error
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, []string) HInt
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, []string) (error, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, []string) (error, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, []string) (HInt, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, []string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, ...string)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, nil, true),
		m(rt[interface {
			M(*HNamed, ...string) error
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyError)}, true),
		m(rt[interface {
			M(*HNamed, ...string) HInt
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(*HNamed, ...string) (error, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyError)}, true),
		m(rt[interface {
			M(*HNamed, ...string) (error, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(*HNamed, ...string) (HInt, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, true),
		m(rt[interface {
			M(*HNamed, ...string) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tySlice(tyString))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, true),
		m(rt[interface {
			M(*HNamed, *HNamed)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, nil, false),
		m(rt[interface {
			M(*HNamed, *HNamed) error
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, *HNamed) HInt
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, *HNamed) (error, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, *HNamed) (error, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyError), ar("", tyNamed(pMain, "HInt"))}, false),
		m(rt[interface {
			M(*HNamed, *HNamed) (HInt, error)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyError)}, false),
		m(rt[interface {
			M(*HNamed, *HNamed) (HInt, HInt)
			N() int
		}](), []Ar{ar("", tyPtr(tyNamed(pMain, "HNamed"))), ar("", tyPtr(tyNamed(pMain, "HNamed")))}, []Ar{ar("", tyNamed(pMain, "HInt")), ar("", tyNamed(pMain, "HInt"))}, false),
	}
}

type (
	base_bool       = bool
	base_string     = string
	base_int        = int
	base_int8       = int8
	base_int16      = int16
	base_int32      = int32
	base_int64      = int64
	base_uint       = uint
	base_uint8      = uint8
	base_uint16     = uint16
	base_uint32     = uint32
	base_uint64     = uint64
	base_uintptr    = uintptr
	base_float32    = float32
	base_float64    = float64
	base_complex64  = complex64
	base_complex128 = complex128
	base_error      = error
)

func shadowPool() []rcase {
	type (
		bool       base_bool
		string     base_string
		int        base_int
		int8       base_int8
		int16      base_int16
		int32      base_int32
		int64      base_int64
		uint       base_uint
		uint8      base_uint8
		uint16     base_uint16
		uint32     base_uint32
		uint64     base_uint64
		uintptr    base_uintptr
		float32    base_float32
		float64    base_float64
		complex64  base_complex64
		complex128 base_complex128
		byte       base_uint8
		rune       base_int32
		error      base_error
		any        struct{}
		true       []base_int
		Pointer    *base_int
	)
	return []rcase{
		{rt[bool](), tyNamed(pMain, "bool")},
		{rt[string](), tyNamed(pMain, "string")},
		{rt[int](), tyNamed(pMain, "int")},
		{rt[int8](), tyNamed(pMain, "int8")},
		{rt[int16](), tyNamed(pMain, "int16")},
		{rt[int32](), tyNamed(pMain, "int32")},
		{rt[int64](), tyNamed(pMain, "int64")},
		{rt[uint](), tyNamed(pMain, "uint")},
		{rt[uint8](), tyNamed(pMain, "uint8")},
		{rt[uint16](), tyNamed(pMain, "uint16")},
		{rt[uint32](), tyNamed(pMain, "uint32")},
		{rt[uint64](), tyNamed(pMain, "uint64")},
		{rt[uintptr](), tyNamed(pMain, "uintptr")},
		{rt[float32](), tyNamed(pMain, "float32")},
		{rt[float64](), tyNamed(pMain, "float64")},
		{rt[complex64](), tyNamed(pMain, "complex64")},
		{rt[complex128](), tyNamed(pMain, "complex128")},
		{rt[byte](), tyNamed(pMain, "byte")},
		{rt[rune](), tyNamed(pMain, "rune")},
		{rt[error](), tyNamed(pMain, "error")},
		{rt[any](), tyNamed(pMain, "any")},
		{rt[true](), tyNamed(pMain, "true")},
		{rt[Pointer](), tyNamed(pMain, "Pointer")},
	}
}

From fb75421abe77057984d0823cdba36171b95582bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 01/36] fix: separate embedded interfaces from methods when
 rendering an interface type

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a811c6a..c478582 100644
--- a/types.go
+++ b/types.go
@@ -900,7 +900,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From a92ce9bcc7d8400b633b3706ffec2a3448060031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 02/36] fix: parenthesize receive-only element type of a
 bidirectional channel type

---
 types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types.go b/types.go
index c478582..ba90a24 100644
--- a/types.go
+++ b/types.go
@@ -859,6 +859,13 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
+		if tn.Dir() == reflect.BothDir && tn.Elem().Kind() == KindChan && tn.Elem().Dir() == reflect.RecvDir {
+			// without parentheses, this would be read as "chan<- (chan T)"
+			b.WriteRune('(')
+			typeNameToBuffer(tn.Elem(), b)
+			b.WriteRune(')')
+			return
+		}
 		typeNameToBuffer(tn.Elem(), b)
 	case KindFunc:
 		b.WriteString("func")
-- 
2.43.0


From c787af4782258dff432d26b40a951ead2ecb5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 03/36] fix: support map types in TypeNameForReflectType

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index ba90a24..b2d556f 100644
--- a/types.go
+++ b/types.go
@@ -580,6 +580,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
-- 
2.43.0


From 04ea392ca9b1c262bc3789c49fcf61f420f31d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 04/36] fix: store reflected function results in the
 signature's results

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b2d556f..b628695 100644
--- a/types.go
+++ b/types.go
@@ -627,7 +627,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From bc74964380374e6d8ab6bb2961420a94831bbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 05/36] fix: represent embedded fields of reflected structs as
 embedded

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index b628695..c7e1d1c 100644
--- a/types.go
+++ b/types.go
@@ -595,8 +595,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From 6793e393aa131a4a5539243bdf486c27ef39eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 06/36] fix: do not panic for Go types elements that have no
 package, such as error

---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index 9dc510d..5e2d4f1 100644
--- a/model.go
+++ b/model.go
@@ -66,6 +66,10 @@ func (p Package) String() string {
 // PackageForGoType returns a Package for the given Go types package. This is
 // useful for converting between package representations.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		// elements in the universe scope, like "error", have no package
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From ea8fdf48ba12017eb3de9fbdd00aa416b2aec059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 07/36] fix: support alias types in TypeNameForGoType

---
 types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types.go b/types.go
index c7e1d1c..58a3333 100644
--- a/types.go
+++ b/types.go
@@ -519,6 +519,13 @@ func TypeNameForGoType(t types.Type) TypeName {
 		return InterfaceType(embeds, methods...)
 
 	default:
+		// This identifies a *types.Alias, which older versions of Go do not have.
+		if a, ok := t.(interface {
+			Obj() *types.TypeName
+			Rhs() types.Type
+		}); ok {
+			return NamedType(PackageForGoType(a.Obj().Pkg()).Symbol(a.Obj().Name()))
+		}
 		panic(fmt.Sprintf("%T cannot be represented as TypeName", t))
 	}
 }
-- 
2.43.0


From 0f10692dbb6484f6449115d6fb19f53e6f36bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 08/36] fix: WriteGoFilesToGoPath always failed with "GOPATH is
 empty"

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 5e2d4f1..0c15900 100644
--- a/model.go
+++ b/model.go
@@ -270,7 +270,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if len(paths) == 0 {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From d195b6e259e1f7583f403e2d2fc4c6ba21c8dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 09/36] fix: WriteGoFiles reports an error from closing a
 writer

---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 0c15900..f39d0d4 100644
--- a/model.go
+++ b/model.go
@@ -235,8 +235,12 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From 88f3ca8fe87ce93fe590a060b157053d4d6094ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 10/36] fix: render a struct tag on the same line as the end of
 its field's struct or interface type

---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index f39d0d4..02f89cf 100644
--- a/model.go
+++ b/model.go
@@ -1252,6 +1252,10 @@ func (f *FieldSpec) writeTo(b *bytes.Buffer) {
 	}
 
 	if f.Tag != "" {
+		if n := b.Len(); b.Bytes()[n-1] == '\n' {
+			// a tag must be on the same line as the end of the field type
+			b.Truncate(n - 1)
+		}
 		tag := string(f.Tag)
 		if strconv.CanBackquote(tag) {
 			fmt.Fprintf(b, " `%s`", tag)
-- 
2.43.0


From 474c0e589d7cd2b22f6eadca0f252cbe193616ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 11/36] fix: properly import and qualify references to named
 types given as a TypeSpec

---
 model.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 02f89cf..cfedd3b 100644
--- a/model.go
+++ b/model.go
@@ -495,6 +495,15 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
+		if t.Name != "" {
+			// This is a reference to a named type, so the reference must be
+			// qualified, not the definition of the type (which may even be
+			// in another file).
+			if t.parent == nil {
+				return t
+			}
+			return imports.EnsureTypeImported(t.ToTypeName())
+		}
 		t.qualify(imports)
 		return t
 	default:
@@ -1136,12 +1145,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From c2c3071263224488dd8b4977ad210924afae0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 12/36] fix: render a Go types method as a method reference
 when its package needs no alias

---
 code.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code.go b/code.go
index 672132a..9b37dee 100644
--- a/code.go
+++ b/code.go
@@ -205,6 +205,8 @@ func (l line) qualify(imports *Imports) {
 				sym := imports.EnsureImported(sm.Type)
 				if sym != sm.Type {
 					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
+				} else {
+					l.args[i] = sm
 				}
 			}
 		case *types.Package:
-- 
2.43.0


From a2672d78f93f000a97c5da1771c4d86daae7f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 13/36] fix: keep the import path of elements that are
 re-created in template data

---
 templates.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates.go b/templates.go
index c0f8302..5021e8c 100644
--- a/templates.go
+++ b/templates.go
@@ -99,6 +99,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				if newPkg != oldPkg {
 					newCs := t
 					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent.pkgPath = t.parent.pkgPath
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -109,6 +110,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				if newPkg != oldPkg {
 					newVs := t
 					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent.pkgPath = t.parent.pkgPath
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -119,6 +121,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				if newPkg != oldPkg {
 					newTs := t
 					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent.pkgPath = t.parent.pkgPath
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -129,6 +132,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				if newPkg != oldPkg {
 					newFs := t
 					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent.pkgPath = t.parent.pkgPath
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
-- 
2.43.0


From 6a815a267db08940be6ee4e3f9b177eff1486782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 14/36] fix: do not panic when qualifying template data that
 contains an unaddressable array

---
 templates.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 5021e8c..36c960e 100644
--- a/templates.go
+++ b/templates.go
@@ -198,7 +198,9 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				} else {
 					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
 				}
-				reflect.Copy(newArray, data.Slice(0, i))
+				for j := 0; j < i; j++ {
+					newArray.Index(j).Set(data.Index(j))
+				}
 				newArray.Index(i).Set(newV)
 			}
 		}
-- 
2.43.0


From c306528c6bd7387c2d426c4d4fb32e9339a5ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 15/36] fix: do not panic when qualifying template data that
 has structs with unexported fields

---
 templates.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/templates.go b/templates.go
index 36c960e..be8ab75 100644
--- a/templates.go
+++ b/templates.go
@@ -149,6 +149,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		case Imports:
 			// intentionally do not touch these
 		default:
+			if !data.CanAddr() {
+				// unexported fields are only accessible if addressable
+				addressable := reflect.New(data.Type()).Elem()
+				addressable.Set(data)
+				data = addressable
+			}
 			var newStruct reflect.Value
 			for i := 0; i < data.NumField(); i++ {
 				var newV reflect.Value
@@ -161,14 +167,14 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				} else {
 					newV, changedV = qualifyTemplateData(imports, fld)
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
-					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
+				if changedV {
+					if !newStruct.IsValid() {
+						// copy everything, including any unexported fields
+						newStruct = reflect.New(data.Type()).Elem()
+						newStruct.Set(data)
 					}
-					newStruct.Field(i).Set(newV)
+					newFld, _ := getField(newStruct, i)
+					newFld.Set(newV)
 				}
 			}
 			if newStruct.IsValid() {
-- 
2.43.0


From 58e4377162ae5c5b343dce6a1f048cf03382be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 16/36] fix: preserve the type of pointers to interfaces when
 qualifying template data

---
 templates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates.go b/templates.go
index be8ab75..ef45c02 100644
--- a/templates.go
+++ b/templates.go
@@ -184,10 +184,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Ptr:
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
+			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
 				return newElem.Addr(), true
 			}
-			dest := reflect.New(newElem.Type())
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
 			return dest, true
 		}
-- 
2.43.0


From f6bee21c5b3d326c92a90150ca3dcff87b98d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 17/36] fix: convert Go types and reflect elements in template
 data even if they need no alias

---
 templates.go | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/templates.go b/templates.go
index ef45c02..459aee5 100644
--- a/templates.go
+++ b/templates.go
@@ -18,37 +18,24 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 					newRv = reflect.ValueOf(newT)
 				}
 			case reflect.Type:
-				origT := TypeNameForReflectType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newT := imports.EnsureTypeImported(TypeNameForReflectType(d))
+				newRv = reflect.ValueOf(newT)
 			case types.Type:
-				origT := TypeNameForGoType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newT := imports.EnsureTypeImported(TypeNameForGoType(d))
+				newRv = reflect.ValueOf(newT)
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
-					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(imports.EnsureImported(sym))
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
 				origP := PackageForGoType(d)
 				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From 7ad708bc86f02bb0724d448e5b845f565211d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 18/36] fix: assign import aliases for maps in template data in
 a consistent order

---
 templates.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 459aee5..571e390 100644
--- a/templates.go
+++ b/templates.go
@@ -1,8 +1,10 @@
 package gopoet
 
 import (
+	"fmt"
 	"go/types"
 	"reflect"
+	"sort"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -204,7 +206,13 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	case reflect.Map:
 		var newMap reflect.Value
 		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		keys := data.MapKeys()
+		// aliases may depend on the order in which packages are imported, so
+		// use a consistent order
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprintf("%v %#v", keys[i], keys[i]) < fmt.Sprintf("%v %#v", keys[j], keys[j])
+		})
+		for _, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
-- 
2.43.0


From 83516ca799b06eb884630bc55668b50d73553fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 19/36] fix: packages with unknown name always get an alias
 that is a valid identifier

---
 imports.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 6a159ae..0e123ea 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,15 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -81,7 +86,7 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 
 	p := packageName
 	if packageName == "" {
-		p = path.Base(importPath)
+		p = aliasForPath(importPath)
 	}
 	pkgBase := p
 	suffix := 1
@@ -103,6 +108,22 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// aliasForPath returns an alias for a package whose name is unknown. The alias is
+// the last element of the import path, adjusted if it is not usable as an alias.
+func aliasForPath(importPath string) string {
+	alias := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, path.Base(importPath))
+	r, _ := utf8.DecodeRuneInString(alias)
+	if alias == "_" || alias == "init" || unicode.IsDigit(r) || token.Lookup(alias).IsKeyword() || types.Universe.Lookup(alias) != nil {
+		alias = "_" + alias
+	}
+	return alias
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From 7515f9a5846ec25ad4d4b18706ef4fa94ca40c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 20/36] fix: Export and Unexport handle letters without case
 mappings and non-letters with them

---
 names.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/names.go b/names.go
index 856c3d5..6b13f1c 100644
--- a/names.go
+++ b/names.go
@@ -14,10 +14,15 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
+	if unicode.IsUpper(r) {
+		// upper-case letter that has no lower-case form; just prefix with "x"
+		// to make returned string unexported
+		return "x" + s
+	}
 	return string(r) + s[sz:]
 }
 
@@ -32,14 +37,14 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if upperR == r || !unicode.IsLetter(r) || !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From 117c573e6edfe1fb898a2aeb6f31ddc83a2f6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 21/36] fix: rendering a file no longer leaves its elements
 re-written for that file's imports

---
 code.go    |  4 ++++
 imports.go | 29 +++++++++++++++++++++++++++++
 model.go   | 16 ++++++++++++++++
 3 files changed, 49 insertions(+)

diff --git a/code.go b/code.go
index 9b37dee..13e6e77 100644
--- a/code.go
+++ b/code.go
@@ -135,6 +135,8 @@ func (l line) writeTo(b *bytes.Buffer) {
 }
 
 func (l line) qualify(imports *Imports) {
+	origArgs := append([]interface{}(nil), l.args...)
+	imports.onRestore(func() { copy(l.args, origArgs) })
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -233,5 +235,7 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 }
 
 func (t *templ) qualify(imports *Imports) {
+	origData := t.data
+	imports.onRestore(func() { t.data = origData })
 	t.data = imports.QualifyTemplateData(t.data)
 }
diff --git a/imports.go b/imports.go
index 0e123ea..393ca7e 100644
--- a/imports.go
+++ b/imports.go
@@ -23,6 +23,11 @@ type Imports struct {
 	pkgPath       string
 	importsByPath map[string]importDef
 	pathsByName   map[string]string
+
+	// Actions that restore elements to their original state, from before they
+	// were re-written to use the package prefixes of these imports. It is nil
+	// unless a file is being rendered.
+	restores *[]func()
 }
 
 type importDef struct {
@@ -37,6 +42,30 @@ func NewImportsFor(pkgPath string) *Imports {
 	return &Imports{pkgPath: pkgPath}
 }
 
+// startQualifying prepares for elements to be re-written with the package
+// prefixes of these imports. It returns a function that puts everything that
+// was re-written since back in its original state, so that the elements can
+// also be used with other imports (and thus with other package prefixes).
+func (i *Imports) startQualifying() func() {
+	var restores []func()
+	outer := i.restores
+	i.restores = &restores
+	return func() {
+		for idx := len(restores) - 1; idx >= 0; idx-- {
+			restores[idx]()
+		}
+		i.restores = outer
+	}
+}
+
+// onRestore adds an action to be done by the function that was returned from
+// startQualifying.
+func (i *Imports) onRestore(fn func()) {
+	if i.restores != nil {
+		*i.restores = append(*i.restores, fn)
+	}
+}
+
 // RegisterImportForPackage "imports" the specified package and returns the
 // package prefix to use for symbols in the imported package. See
 // RegisterImport for more details.
diff --git a/model.go b/model.go
index cfedd3b..a9fac85 100644
--- a/model.go
+++ b/model.go
@@ -198,6 +198,9 @@ func (e *FormatError) Error() string {
 //
 // The formatted code is then written to the given io.Writer.
 func WriteGoFile(w io.Writer, f *GoFile) error {
+	// qualifying re-writes the elements only for the time it takes to render them
+	defer f.Imports.startQualifying()()
+
 	// make sure all package references are properly qualified for
 	for i := range f.elements {
 		f.elements[i].qualify(&f.Imports)
@@ -481,6 +484,8 @@ func (c *ConstDecl) setParent(f *GoFile) {
 
 func (c *ConstDecl) qualify(imports *Imports) {
 	for _, cs := range c.Consts {
+		cs, origType := cs, cs.Type
+		imports.onRestore(func() { cs.Type = origType })
 		cs.Type = qualifyType(imports, cs.Type)
 		if cs.Initializer != nil {
 			cs.Initializer.qualify(imports)
@@ -726,6 +731,8 @@ func (v *VarDecl) setParent(f *GoFile) {
 
 func (v *VarDecl) qualify(imports *Imports) {
 	for _, vs := range v.Vars {
+		vs, origType := vs, vs.Type
+		imports.onRestore(func() { vs.Type = origType })
 		vs.Type = qualifyType(imports, vs.Type)
 		if vs.Initializer != nil {
 			vs.Initializer.qualify(imports)
@@ -1143,8 +1150,12 @@ func (t *TypeSpec) setParent(f *GoFile) {
 func (t *TypeSpec) isTypeNameOrSpec() {}
 
 func (t *TypeSpec) qualify(imports *Imports) {
+	origUnderlying := t.underlying
+	imports.onRestore(func() { t.underlying = origUnderlying })
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
+		fs, origType := fs, fs.Type
+		imports.onRestore(func() { fs.Type = origType })
 		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
@@ -1321,6 +1332,7 @@ func (e *InterfaceEmbed) setParent(t *TypeSpec) {
 
 func (e *InterfaceEmbed) qualify(imports *Imports) bool {
 	oldType := e.Type
+	imports.onRestore(func() { e.Type = oldType })
 	e.Type = imports.EnsureImported(e.Type)
 	return oldType != e.Type
 }
@@ -1425,6 +1437,8 @@ func (m *InterfaceMethod) setParent(t *TypeSpec) {
 }
 
 func (m *InterfaceMethod) qualify(imports *Imports) bool {
+	origSig := m.Signature
+	imports.onRestore(func() { m.Signature = origSig })
 	newSig := imports.EnsureAllTypesImported(&m.Signature)
 	if newSig != &m.Signature {
 		m.Signature = *newSig
@@ -1642,6 +1656,8 @@ func (f *FuncSpec) setParent(file *GoFile) {
 }
 
 func (f *FuncSpec) qualify(imports *Imports) {
+	origSig := f.Signature
+	imports.onRestore(func() { f.Signature = origSig })
 	newSig := imports.EnsureAllTypesImported(&f.Signature)
 	if newSig != &f.Signature {
 		f.Signature = *newSig
-- 
2.43.0


From dd6c2cf25cd512795a65fe6d35bbf6e05a3ecba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 22/36] fix: type name of a function is independent of the
 function's later changes

---
 model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index a9fac85..90dbeb5 100644
--- a/model.go
+++ b/model.go
@@ -1623,7 +1623,8 @@ func (f *FuncSpec) ToTypeName() TypeName {
 		return FuncTypeFromSig(&sig)
 	}
 
-	return FuncTypeFromSig(&f.Signature)
+	sig := f.Signature
+	return FuncTypeFromSig(&sig)
 }
 
 func (f *FuncSpec) isFileElement() {}
-- 
2.43.0


From c8b13adddbd1fecf8d3f5a60d67d210c86f2beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 23/36] fix: order template data map keys by import path, not
 by memory address

---
 imports.go   | 8 ++++++++
 templates.go | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 393ca7e..78b8502 100644
--- a/imports.go
+++ b/imports.go
@@ -24,6 +24,11 @@ type Imports struct {
 	importsByPath map[string]importDef
 	pathsByName   map[string]string
 
+	// If true, import paths are used as package prefixes and nothing is ever
+	// registered. The prefixes are not valid in Go code, but they can be used to
+	// compare elements.
+	pathsAsNames bool
+
 	// Actions that restore elements to their original state, from before they
 	// were re-written to use the package prefixes of these imports. It is nil
 	// unless a file is being rendered.
@@ -105,6 +110,9 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	if importPath == i.pkgPath {
 		return ""
 	}
+	if i.pathsAsNames {
+		return importPath + "."
+	}
 	if ex, ok := i.importsByPath[importPath]; ok {
 		return ex.packageName + "."
 	}
diff --git a/templates.go b/templates.go
index 571e390..4960cb5 100644
--- a/templates.go
+++ b/templates.go
@@ -209,8 +209,14 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		keys := data.MapKeys()
 		// aliases may depend on the order in which packages are imported, so
 		// use a consistent order
+		order := make(map[interface{}]string, len(keys))
+		for _, k := range keys {
+			// so that elements whose packages have the same name also differ
+			byPath, _ := qualifyTemplateData(&Imports{pathsAsNames: true}, k)
+			order[k.Interface()] = fmt.Sprintf("%v %#v", byPath, k)
+		}
 		sort.Slice(keys, func(i, j int) bool {
-			return fmt.Sprintf("%v %#v", keys[i], keys[i]) < fmt.Sprintf("%v %#v", keys[j], keys[j])
+			return order[keys[i].Interface()] < order[keys[j].Interface()]
 		})
 		for _, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
-- 
2.43.0


From 656608e4bc88c95dcef53bc375163f87b60402f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 24/36] fix: keep the comments inside of an unnamed type that
 is given as a var's type

---
 model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 90dbeb5..0db1dbf 100644
--- a/model.go
+++ b/model.go
@@ -850,7 +850,12 @@ func (v *VarSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		writeComment(v.Comment, b)
 	}
 	fmt.Fprintf(b, "%s", strings.Join(v.Names, ", "))
-	if v.Type != nil {
+	if ts, ok := v.Type.(*TypeSpec); ok && ts.Name == "" {
+		// write the whole type, so that comments inside of it are included
+		ts.writeUnderlying(b)
+		// the initializer must be on the same line as the end of the type
+		b.Truncate(b.Len() - 1)
+	} else if v.Type != nil {
 		fmt.Fprintf(b, " %v", v.Type)
 	}
 	if v.Initializer != nil {
-- 
2.43.0


From bda444d35c04e17461b6548e7cc1683d2bfb8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 25/36] fix: render a method given as a format argument as just
 its name

The documentation of FuncSpec.String and InterfaceMethod.String says so. Instead
it was changed to a method expression if, and only if, the package prefix of its
type differs from the package's name (which includes the file's own package). And
otherwise its package was imported without any reference to it.
---
 code.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/code.go b/code.go
index 13e6e77..62c0f17 100644
--- a/code.go
+++ b/code.go
@@ -175,22 +175,11 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
-		case *InterfaceMethod:
-			mr := a.ToMethodRef()
-			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
 		case *FuncSpec:
-			symOrMr := a.ToSymbol()
-			switch sm := symOrMr.(type) {
-			case Symbol:
-				l.args[i] = imports.EnsureImported(sm)
-			case MethodReference:
-				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+			// methods (like interface methods) are rendered as just the
+			// method's name, which needs no qualifier
+			if sym, ok := a.ToSymbol().(Symbol); ok {
+				l.args[i] = imports.EnsureImported(sym)
 			}
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
-- 
2.43.0


From dba184af52da10713f08d5399ce8917dbe03c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 26/36] fix: do not recurse into go/types values when
 qualifying template data

A pointer to a go/types value that is not held in an interface, like a field of
type *types.Package, overflowed the stack for any package with nested scopes.
---
 templates.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates.go b/templates.go
index 4960cb5..4c6beda 100644
--- a/templates.go
+++ b/templates.go
@@ -172,6 +172,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Ptr:
+		switch data.Interface().(type) {
+		case types.Type, types.Object, *types.Package:
+			// these can only be replaced if held in an interface (see above),
+			// and their internals must not be touched (and may be cyclic)
+			return data, false
+		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
 				return newElem.Addr(), true
-- 
2.43.0


From 52cacdc3e41d19f36dff9229eb76ded5e8d62d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 27/36] fix: order template data map keys of equal text by
 their types

Keys such as int(1) and int64(1) were told apart by nothing, so the order in
which their values were qualified, and thereby the aliases, varied.
---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 4c6beda..f9268bb 100644
--- a/templates.go
+++ b/templates.go
@@ -219,7 +219,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		for _, k := range keys {
 			// so that elements whose packages have the same name also differ
 			byPath, _ := qualifyTemplateData(&Imports{pathsAsNames: true}, k)
-			order[k.Interface()] = fmt.Sprintf("%v %#v", byPath, k)
+			order[k.Interface()] = fmt.Sprintf("%v %#v %T", byPath, k, k.Interface())
 		}
 		sort.Slice(keys, func(i, j int) bool {
 			return order[keys[i].Interface()] < order[keys[j].Interface()]
-- 
2.43.0


From 1a979e117946aae110301b0154272feb852760e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 28/36] fix: NewPointerReceiver refuses an empty type name,
 like NewReceiver

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 0db1dbf..efd13e8 100644
--- a/model.go
+++ b/model.go
@@ -1722,6 +1722,9 @@ func NewReceiverForType(name string, rcvrType TypeNameOrSpec) *ReceiverSpec {
 // whose receiver type is a pointer to the given type. The type is an
 // unqualified reference to a named type in the same package.
 func NewPointerReceiver(name, rcvrType string) *ReceiverSpec {
+	if rcvrType == "" {
+		panic("cannot create a pointer ReceiverSpec with an empty receiver type name")
+	}
 	return &ReceiverSpec{Name: name, Type: rcvrType, IsPointer: true}
 }
 
-- 
2.43.0


From 2234b68a279ceaf5252c0ca9208dae9cb6f8d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 29/36] fix: types derived from funcs and interface methods
 share no lists with them

---
 model.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index efd13e8..770d571 100644
--- a/model.go
+++ b/model.go
@@ -1073,7 +1073,7 @@ func NewInterfaceTypeSpec(typeName string, elements ...InterfaceElement) *TypeSp
 		case *InterfaceMethod:
 			methods = append(methods, MethodType{
 				Name:      e.Name,
-				Signature: e.Signature,
+				Signature: copySignature(&e.Signature),
 			})
 		}
 	}
@@ -1618,20 +1618,28 @@ func (f *FuncSpec) ToTypeName() TypeName {
 			rcvrType = PointerType(rcvrType)
 		}
 		rcvr := ArgType{Name: f.Receiver.Name, Type: rcvrType}
-		sig := f.Signature
+		sig := copySignature(&f.Signature)
 		args := make([]ArgType, len(sig.Args)+1)
 		args[0] = rcvr
 		copy(args[1:], sig.Args)
 		sig.Args = args
-		sig.Results = f.Results
-		sig.IsVariadic = f.IsVariadic
 		return FuncTypeFromSig(&sig)
 	}
 
-	sig := f.Signature
+	sig := copySignature(&f.Signature)
 	return FuncTypeFromSig(&sig)
 }
 
+// copySignature returns a copy of the given signature whose lists of arguments
+// and results are not shared with it.
+func copySignature(s *Signature) Signature {
+	return Signature{
+		Args:       append([]ArgType(nil), s.Args...),
+		Results:    append([]ArgType(nil), s.Results...),
+		IsVariadic: s.IsVariadic,
+	}
+}
+
 func (f *FuncSpec) isFileElement() {}
 
 func (f *FuncSpec) writeTo(b *bytes.Buffer) {
-- 
2.43.0


From 4aa37338e149f845c2e910a3da997418fa7c8b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 30/36] fix: NewReceiverForType and NewPointerReceiverForType
 refuse a missing type

---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index 770d571..8f50a41 100644
--- a/model.go
+++ b/model.go
@@ -1722,6 +1722,8 @@ func NewReceiverForType(name string, rcvrType TypeNameOrSpec) *ReceiverSpec {
 			panic("cannot create a pointer ReceiverSpec for an unnamed type")
 		}
 		rcvrTypeName = t.Name
+	default:
+		panic(fmt.Sprintf("cannot create a ReceiverSpec for an unnamed type: %v", t))
 	}
 	return &ReceiverSpec{Name: name, Type: rcvrTypeName, IsPointer: isPointer}
 }
@@ -1752,6 +1754,8 @@ func NewPointerReceiverForType(name string, rcvrType TypeNameOrSpec) *ReceiverSp
 			panic("cannot create a pointer ReceiverSpec for an unnamed type")
 		}
 		rcvrTypeName = t.Name
+	default:
+		panic(fmt.Sprintf("cannot create a ReceiverSpec for an unnamed type: %v", t))
 	}
 	return &ReceiverSpec{Name: name, Type: rcvrTypeName, IsPointer: true}
 }
-- 
2.43.0


From 1fb008a6f39b6cd852ae5247aa17cc9c51f8a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 31/36] fix: qualify template data in map entries whose keys
 are NaN

---
 templates.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/templates.go b/templates.go
index f9268bb..4ce03b9 100644
--- a/templates.go
+++ b/templates.go
@@ -211,33 +211,35 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Map:
 		var newMap reflect.Value
-		seenKeys := make([]reflect.Value, 0, data.Len())
-		keys := data.MapKeys()
 		// aliases may depend on the order in which packages are imported, so
 		// use a consistent order
-		order := make(map[interface{}]string, len(keys))
-		for _, k := range keys {
+		type mapEntry struct {
+			key, val reflect.Value
+			order    string
+		}
+		entries := make([]mapEntry, 0, data.Len())
+		for it := data.MapRange(); it.Next(); {
+			// not looked up by key, which finds nothing if the key is NaN
+			k := it.Key()
 			// so that elements whose packages have the same name also differ
 			byPath, _ := qualifyTemplateData(&Imports{pathsAsNames: true}, k)
-			order[k.Interface()] = fmt.Sprintf("%v %#v %T", byPath, k, k.Interface())
+			order := fmt.Sprintf("%v %#v %T", byPath, k, k.Interface())
+			entries = append(entries, mapEntry{key: k, val: it.Value(), order: order})
 		}
-		sort.Slice(keys, func(i, j int) bool {
-			return order[keys[i].Interface()] < order[keys[j].Interface()]
+		sort.Slice(entries, func(i, j int) bool {
+			return entries[i].order < entries[j].order
 		})
-		for _, k := range keys {
-			newK, changedK := qualifyTemplateData(imports, k)
-			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
-			if newMap.IsValid() {
-				newMap.SetMapIndex(newK, newV)
-			} else if changedK || changedV {
+		for idx, e := range entries {
+			newK, changedK := qualifyTemplateData(imports, e.key)
+			newV, changedV := qualifyTemplateData(imports, e.val)
+			if !newMap.IsValid() && (changedK || changedV) {
 				newMap = reflect.MakeMap(data.Type())
-				for _, sk := range seenKeys {
-					newMap.SetMapIndex(sk, data.MapIndex(sk))
+				for _, seen := range entries[:idx] {
+					newMap.SetMapIndex(seen.key, seen.val)
 				}
+			}
+			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
-				seenKeys = nil
-			} else {
-				seenKeys = append(seenKeys, k)
 			}
 		}
 		if newMap.IsValid() {
-- 
2.43.0


From ced4b0f835e3ebec3d59d961d120fb18076933ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 32/36] fix: qualify interface embeds among the arguments of
 code blocks

---
 code.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code.go b/code.go
index 62c0f17..b7406c9 100644
--- a/code.go
+++ b/code.go
@@ -181,6 +181,8 @@ func (l line) qualify(imports *Imports) {
 			if sym, ok := a.ToSymbol().(Symbol); ok {
 				l.args[i] = imports.EnsureImported(sym)
 			}
+		case *InterfaceEmbed:
+			l.args[i] = imports.EnsureImported(a.Type)
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
 			l.args[i] = imports.EnsureTypeImported(t)
-- 
2.43.0


From 733c1df8a09f81eea69abc50bd7d2671e58cb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 33/36] fix: qualify unnamed types in template data

---
 templates.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 4ce03b9..a2f4d45 100644
--- a/templates.go
+++ b/templates.go
@@ -104,7 +104,15 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			}
 		case TypeSpec:
-			if t.parent != nil {
+			if t.Name == "" && t.underlying != nil {
+				// unnamed types are rendered as their underlying type
+				newType := imports.EnsureTypeImported(t.underlying)
+				if newType != t.underlying {
+					newTs := t
+					newTs.underlying = newType
+					return reflect.ValueOf(&newTs).Elem(), true
+				}
+			} else if t.parent != nil {
 				oldPkg := t.parent.PackageName
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
-- 
2.43.0


From 19cdcc95d19964a71727ef5d856c720b57d2806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 34/36] fix: convert interfaces that embed aliases

---
 types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 58a3333..8bc7b45 100644
--- a/types.go
+++ b/types.go
@@ -503,12 +503,12 @@ func TypeNameForGoType(t types.Type) TypeName {
 	case *types.Interface:
 		embeds := make([]Symbol, t.NumEmbeddeds())
 		for i := 0; i < t.NumEmbeddeds(); i++ {
-			//lint:ignore SA1019 we still support Go 1.10 which does not have non-deprecated EmbeddedType
-			obj := t.Embedded(i).Obj()
-			embeds[i] = Symbol{
-				Name:    obj.Name(),
-				Package: PackageForGoType(obj.Pkg()),
+			// may be an alias, whose type is not necessarily a named one
+			embed := TypeNameForGoType(t.EmbeddedType(i))
+			if embed.Kind() != KindNamed {
+				panic(fmt.Sprintf("interface that embeds unnamed type %s cannot be represented as TypeName", embed))
 			}
+			embeds[i] = embed.Symbol()
 		}
 		methods := make([]MethodType, t.NumExplicitMethods())
 		for i := 0; i < t.NumExplicitMethods(); i++ {
-- 
2.43.0


From 123d1e8b53f6c6d0d0dc6d031db4bcf01ef047b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 35/36] fix: order template data map keys of equal text by
 their contents

---
 templates.go | 62 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index a2f4d45..328622c 100644
--- a/templates.go
+++ b/templates.go
@@ -235,7 +235,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			entries = append(entries, mapEntry{key: k, val: it.Value(), order: order})
 		}
 		sort.Slice(entries, func(i, j int) bool {
-			return entries[i].order < entries[j].order
+			if entries[i].order != entries[j].order {
+				return entries[i].order < entries[j].order
+			}
+			return compareMapKeys(entries[i].key, entries[j].key) < 0
 		})
 		for idx, e := range entries {
 			newK, changedK := qualifyTemplateData(imports, e.key)
@@ -257,3 +260,60 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	return data, false
 }
+
+// compareMapKeys orders map keys that have the same text, for example because
+// they decide themselves how they are formatted, by their types and contents.
+// It returns zero if nothing but memory addresses could tell them apart.
+func compareMapKeys(a, b reflect.Value) int {
+	if a.Kind() == reflect.Interface {
+		a, b = a.Elem(), b.Elem()
+	}
+	if !a.IsValid() || !b.IsValid() {
+		return compareOrdered(!a.IsValid() && b.IsValid(), a.IsValid() && !b.IsValid())
+	}
+	if at, bt := a.Type(), b.Type(); at != bt {
+		an, bn := at.PkgPath()+" "+at.String(), bt.PkgPath()+" "+bt.String()
+		return compareOrdered(an < bn, an > bn)
+	}
+	switch a.Kind() {
+	case reflect.Bool:
+		return compareOrdered(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return compareOrdered(a.Int() < b.Int(), a.Int() > b.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return compareOrdered(a.Uint() < b.Uint(), a.Uint() > b.Uint())
+	case reflect.Float32, reflect.Float64:
+		return compareOrdered(a.Float() < b.Float(), a.Float() > b.Float())
+	case reflect.Complex64, reflect.Complex128:
+		ac, bc := a.Complex(), b.Complex()
+		if c := compareOrdered(real(ac) < real(bc), real(ac) > real(bc)); c != 0 {
+			return c
+		}
+		return compareOrdered(imag(ac) < imag(bc), imag(ac) > imag(bc))
+	case reflect.String:
+		return compareOrdered(a.String() < b.String(), a.String() > b.String())
+	case reflect.Struct:
+		for i := 0; i < a.NumField(); i++ {
+			if c := compareMapKeys(a.Field(i), b.Field(i)); c != 0 {
+				return c
+			}
+		}
+	case reflect.Array:
+		for i := 0; i < a.Len(); i++ {
+			if c := compareMapKeys(a.Index(i), b.Index(i)); c != 0 {
+				return c
+			}
+		}
+	}
+	return 0
+}
+
+func compareOrdered(less, greater bool) int {
+	switch {
+	case less:
+		return -1
+	case greater:
+		return 1
+	}
+	return 0
+}
-- 
2.43.0


From fe5b4f9a84dde48791c5070b655bb0a0768e64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:43 +0000
Subject: [PATCH 36/36] fix: keep named pointer types when re-creating template
 data

A value of a named pointer type was re-created with the unnamed pointer
type, which is a different type where it is held in an interface.
---
 templates.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates.go b/templates.go
index 328622c..e0b187e 100644
--- a/templates.go
+++ b/templates.go
@@ -188,11 +188,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
-				return newElem.Addr(), true
+				return newElem.Addr().Convert(data.Type()), true
 			}
 			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
-			return dest, true
+			// the pointer's type may be a named one
+			return dest.Convert(data.Type()), true
 		}
 
 	case reflect.Array, reflect.Slice:
-- 
2.43.0


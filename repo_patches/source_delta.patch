From 44a4f4516098d3e4d660c0634248de305096216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:27 +0000
Subject: [PATCH 01/24] fix: return open and read failures of ParseProgram as
 errors naming the file

ParseProgram panicked when the program file could not be opened, and read
failures of program and unit files did not say which file failed.
---
 parser/program.go     | 4 ++--
 parser/unit_parser.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..9675cfb 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,14 +20,14 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
 	decoder := japanese.ShiftJIS.NewDecoder()
 	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
 	if err != nil {
-		return nil, err
+		return nil, errors.Wrapf(err, "failed to read file: %q", path)
 	}
 
 	runes := []rune(string(str))
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..2ee9c08 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -32,7 +32,7 @@ func (p *UnitParser) LoadFile() error {
 	decoder := japanese.ShiftJIS.NewDecoder()
 	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
 	if err != nil {
-		return err
+		return errors.Wrapf(err, "failed to read file: %q", p.context.Path)
 	}
 
 	runes := []rune(string(str))
-- 
2.43.0


From 3d2252c60783d3463b0acf871ee1a78781dc6baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 02/24] fix: stop at the end of text in an unterminated string
 literal

ProcessString looped forever when the closing quote was missing.
---
 token/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/string.go b/token/string.go
index be38b40..18eefe0 100644
--- a/token/string.go
+++ b/token/string.go
@@ -14,6 +14,9 @@ func ProcessString(c *runes.Cursor) *Token {
 			if last != '\\' && r == '\'' {
 				break
 			}
+			if r == runes.CursorEOF {
+				break
+			}
 			last = r
 		}
 		c.Next()
-- 
2.43.0


From c4d4f5261fdffbb5cfd26215b686bfff75f04a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:30 +0000
Subject: [PATCH 03/24] fix: report the end of text in an assembler statement

ParseAssemblerStatement looped forever when END was missing.
---
 parser/statement_asm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..5ffa727 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -15,10 +15,14 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 	log.Printf("ParseAssemblerStatement start")
 
 	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
+		t := p.NextToken()
+		if t.Is(token.ReservedWord.HasKeyword("END")) {
 			p.NextToken()
 			break
 		}
+		if t.Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END of assembler statement but was %s", t)
+		}
 	}
 
 	log.Printf("ParseAssemblerStatement done")
-- 
2.43.0


From f6a9fc83f8becddc59c186cf88ebf3afe98e3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 04/24] fix: return a token for runes which start no token

GetNext returned nil for them and the parser dereferenced the nil token.
---
 token/tokenizer.go | 4 +++-
 token/type.go      | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..cd66450 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -57,5 +57,7 @@ func (t *Tokenizer) GetNext() *Token {
 			}
 		}
 	}
-	return nil
+	start := t.Position.Clone()
+	t.Next()
+	return NewToken(Unknown, t.Text, start, t.Position.Clone())
 }
diff --git a/token/type.go b/token/type.go
index b5da5ef..4ea7777 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Unknown // A rune which doesn't start any token
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Unknown:             "unknown",
 }
 
 func (t Type) String() string {
-- 
2.43.0


From 00881bee77d7549fcafa2f5b31e3672183ba910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:35 +0000
Subject: [PATCH 05/24] fix: return the members of a StringSet in a fixed order

The random map order decided in which order units were parsed, which error
was reported first and the text of error messages naming directives.
---
 ext/string_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/string_set.go b/ext/string_set.go
index f52124c..9570bae 100644
--- a/ext/string_set.go
+++ b/ext/string_set.go
@@ -44,7 +44,7 @@ func (m StringSet) Slice() Strings {
 		r[i] = k
 		i++
 	}
-	return r
+	return r.Sort()
 }
 
 func (m StringSet) Equal(other StringSet) bool {
-- 
2.43.0


From 80333b2f6aedcc4c8ec1dee7e463b51ee27d94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:06 +0000
Subject: [PATCH 06/24] fix: report two files which declare the same unit

The topological sort panicked with an index out of range.
---
 parser/program.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/program.go b/parser/program.go
index 9675cfb..b8537c0 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -128,6 +128,9 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 		if err := loader.ProcessIdentAndIntfUses(); err != nil {
 			return err
 		}
+		if old := p.context.Units.ByName(loader.Unit.Ident.Name); old != nil {
+			return errors.Errorf("duplicate unit %s in %s and %s", loader.Unit.Ident.Name, old.Path, loader.Unit.Path)
+		}
 		p.context.AddUnit(loader.Unit)
 	}
 
-- 
2.43.0


From 8aad7e9d129079a3131c91589752a166011b90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:07 +0000
Subject: [PATCH 07/24] fix: stop at type aliases which refer to each other

Predicates of TypeId recursed without end for TYPE T1 = T2; T2 = T1;
---
 ast/type_id.go | 63 ++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..3d555e7 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -69,13 +69,30 @@ func (m *TypeId) getRefNodeDecl() *TypeDecl {
 	return decl
 }
 
+// Returns the type which m finally refers to, following aliases like TYPE T1 = T2; .
+// Returns nil if it isn't declared or the aliases refer to each other.
+func (m *TypeId) getRefType() Type {
+	visited := map[*TypeId]bool{}
+	for {
+		if visited[m] {
+			return nil
+		}
+		visited[m] = true
+		decl := m.getRefNodeDecl()
+		if decl == nil {
+			return nil
+		}
+		next, ok := decl.Type.(*TypeId)
+		if !ok {
+			return decl.Type
+		}
+		m = next
+	}
+}
+
 func (*TypeId) isType() {}
 func (m *TypeId) IsSimpleType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	simpleType, ok := decl.Type.(SimpleType)
+	simpleType, ok := m.getRefType().(SimpleType)
 	if !ok {
 		return false
 	}
@@ -83,11 +100,7 @@ func (m *TypeId) IsSimpleType() bool {
 }
 
 func (m *TypeId) IsOrdinalType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(OrdinalType)
+	ordinalType, ok := m.getRefType().(OrdinalType)
 	if !ok {
 		return false
 	}
@@ -95,11 +108,7 @@ func (m *TypeId) IsOrdinalType() bool {
 }
 
 func (m *TypeId) IsRealType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(RealType)
+	ordinalType, ok := m.getRefType().(RealType)
 	if !ok {
 		return false
 	}
@@ -107,11 +116,7 @@ func (m *TypeId) IsRealType() bool {
 }
 
 func (m *TypeId) IsOrdIdent() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(OrdIdent)
+	ordIdent, ok := m.getRefType().(OrdIdent)
 	if !ok {
 		return false
 	}
@@ -119,11 +124,7 @@ func (m *TypeId) IsOrdIdent() bool {
 }
 
 func (m *TypeId) IsStringType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(StringType)
+	ordIdent, ok := m.getRefType().(StringType)
 	if !ok {
 		return false
 	}
@@ -131,11 +132,7 @@ func (m *TypeId) IsStringType() bool {
 }
 
 func (m *TypeId) IsPointerType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(PointerType)
+	ordIdent, ok := m.getRefType().(PointerType)
 	if !ok {
 		return false
 	}
@@ -143,11 +140,7 @@ func (m *TypeId) IsPointerType() bool {
 }
 
 func (m *TypeId) IsVariantType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(VariantType)
+	ordIdent, ok := m.getRefType().(VariantType)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 9720b3cd72ec980d34aa0a8465164a2fbece79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:09 +0000
Subject: [PATCH 08/24] fix: stop at classes which inherit from each other

FindMemberDecl and FindProperty recursed without end when a class is its own
ancestor.
---
 ast/type_class.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..3ae126a 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -85,7 +85,12 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 }
 
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
+	return m.findMemberDecl(name, includePrivate, map[*CustomClassType]bool{})
+}
+
+func (m *CustomClassType) findMemberDecl(name string, includePrivate bool, visited map[*CustomClassType]bool) *astcore.Decl {
 	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
+	visited[m] = true
 
 	kw := strings.ToLower(name)
 	for _, mb := range m.Members {
@@ -115,13 +120,18 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 		}
 	}
 
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
+	if parentClass := m.GetParentClass(); parentClass != nil && !visited[parentClass] {
+		return parentClass.findMemberDecl(name, false, visited)
 	}
 	return nil
 }
 
 func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+	return m.findProperty(name, acendant, map[*CustomClassType]bool{})
+}
+
+func (m *CustomClassType) findProperty(name string, acendant bool, visited map[*CustomClassType]bool) *ClassProperty {
+	visited[m] = true
 	kw := strings.ToLower(name)
 	for _, mm := range m.Members {
 		if mm.ClassPropertyList != nil {
@@ -133,8 +143,8 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 		}
 	}
 	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
+		if parentClass := m.GetParentClass(); parentClass != nil && !visited[parentClass] {
+			return parentClass.findProperty(name, true, visited)
 		}
 	}
 	return nil
-- 
2.43.0


From 406e809f6de52858648c69141bf98603364f11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:42 +0000
Subject: [PATCH 09/24] fix: keep the context when a lookahead is rolled back

Rolling back replaced the context by a clone, on which the pending
functions returned by StackDeclMap had no effect: local declarations of a
routine stayed visible after it, and units used by the implementation
section weren't visible in it.
---
 parser/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..84bc1c4 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -26,14 +26,14 @@ func (p *Parser) SetText(text *[]rune) {
 	p.tokenizer = token.NewTokenizer(text, 0)
 }
 
+// RollbackPoint is only for looking ahead. The context must be kept as it is, because
+// the functions returned by StackDeclMap work on it.
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From 82425d6bf25de7b5e02f8542e24d6f3110d41627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 10/24] fix: let units used by the implementation section hide
 those of the interface section

They were searched after the embedded types and the units used by the
interface section, though their uses clause comes later.
---
 parser/pcontext/unit_context.go |  4 +++-
 parser/unit_parser.go           | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 3e36f64..bddb74c 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -45,7 +45,8 @@ func (c *UnitContext) Clone() Context {
 	}
 }
 
-func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
+// ImportUnitDecls returns the DeclMap for the declarations of the unit itself.
+func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) astcore.DeclMap {
 	c.AssignUnits(usesClause)
 	units := usesClause.Units().Compact()
 	// NewCompositeDeclMap は 先頭から最後に向かって検索するので、mapsにはその順序でDeclMapを追加する
@@ -54,6 +55,7 @@ func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
 	maps = append(maps, units.DeclMaps().Reverse()...)
 	maps = append(maps, c.DeclMap)
 	c.DeclMap = astcore.NewCompositeDeclMap(maps...)
+	return localMap
 }
 
 func (c *UnitContext) AssignUnits(usesClause ast.UsesClause) {
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 2ee9c08..0421c6d 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -16,6 +16,8 @@ type UnitParser struct {
 	*Parser
 	context *UnitContext
 	Unit    *ast.Unit
+
+	intfLocalDeclMap astcore.DeclMap
 }
 
 func NewUnitParser(ctx *UnitContext) *UnitParser {
@@ -141,7 +143,7 @@ func (p *UnitParser) ParseInterfaceSectionUses() (*ast.InterfaceSection, error)
 
 func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
-	m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
+	m.intfLocalDeclMap = m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
 
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
@@ -188,8 +190,18 @@ func (m *UnitParser) ProcessImplAndInit() error {
 	defer func() { m.Unit.DeclMap = originalUnitDeclMap }()
 
 	// Insert implLocalDeclMap to m.context.DeclMap
-	maps := []astcore.DeclMap{implLocalDeclMap, originalContextDeclMap}
+	implUsesDeclMap := astcore.NewDeclMap()
+	for _, usesItem := range m.Unit.ImplementationSection.UsesClause {
+		if err := implUsesDeclMap.Set(usesItem); err != nil {
+			return err
+		}
+	}
+	maps := []astcore.DeclMap{implLocalDeclMap, implUsesDeclMap}
+	if m.intfLocalDeclMap != nil {
+		maps = append(maps, m.intfLocalDeclMap)
+	}
 	maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)
+	maps = append(maps, originalContextDeclMap)
 	m.context.DeclMap = astcore.NewCompositeDeclMap(maps...)
 
 	if err := m.ParseImplBody(); err != nil {
-- 
2.43.0


From c97ef2dd655d7d3ae2d69e900d5c3ec6480e7211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:22 +0000
Subject: [PATCH 11/24] fix: resolve identifiers qualified by the unit itself
 in its interface section

It panicked because the unit has no DeclMap until its interface section
is parsed.
---
 parser/unit_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 0421c6d..ece748a 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -149,6 +149,10 @@ func (m *UnitParser) ProcessIntfBody() error {
 		return err
 	}
 
+	// The interface section can refer to its own declarations by (unit name).(ident).
+	// ParseUnitIntfBody replaces it.
+	m.Unit.DeclMap = m.intfLocalDeclMap
+
 	// Parse rest of interface Section (except USES clause)
 	if err := m.ParseUnitIntfBody(); err != nil {
 		return err
-- 
2.43.0


From 3b838091ed2e21721cab5bdf728af925401b0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:24 +0000
Subject: [PATCH 12/24] fix: report a unit which ends in its interface section
 before the units using it

---
 parser/unit_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index ece748a..bcdc7ed 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -157,6 +157,10 @@ func (m *UnitParser) ProcessIntfBody() error {
 	if err := m.ParseUnitIntfBody(); err != nil {
 		return err
 	}
+	// Other units must not be blamed for declarations missing in this unit.
+	if _, err := m.Current(token.ReservedWord.HasKeyword("IMPLEMENTATION")); err != nil {
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From 20d2e624d2edc4dcc57e2b55f4e5ac55b0161eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 13/24] fix: resolve types qualified by a unit name

The type identifier wasn't consumed, so that such types were errors except
in type declarations, and its Ref was never set.
---
 parser/type.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..9a36489 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -161,6 +161,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if !p.IsUnitIdentifier(p.CurrentToken()) {
 		return nil, nil
 	}
+	unitDecl := p.context.Get(p.CurrentToken().Value())
 	unitId := ast.NewUnitId(p.CurrentToken())
 	if _, err := p.Next(token.Symbol('.')); err != nil {
 		return nil, err
@@ -169,7 +170,12 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	p.NextToken()
+	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+	if item, ok := unitDecl.Node.(*ast.UsesClauseItem); ok && item.Unit != nil && item.Unit.DeclMap != nil {
+		r.Ref = item.Unit.DeclMap.Get(r.Ident.Name)
+	}
+	return r, nil
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-- 
2.43.0


From 352edc40d86bfd73a9da9b572ef2d9127ab75eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:36 +0000
Subject: [PATCH 14/24] fix: allow type declarations to hide those of used
 units and outer scopes

They were rejected, or taken for the actual type of a class declared
forward in another unit.
---
 parser/base.go |  4 +++-
 parser/type.go | 28 ++++++++++++++++++----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 84bc1c4..3fcbdd7 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 
+	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/log"
 	"github.com/akm/tparser/token"
 	"github.com/pkg/errors"
@@ -13,13 +14,14 @@ type Parser struct {
 	curr             *token.Token
 	context          Context
 	postSectionFuncs []func()
+	forwardDecls     map[*ast.TypeDecl]ast.ForwardDeclaration
 }
 
 func NewParser(ctx Context) *Parser {
 	if ctx == nil {
 		panic(errors.Errorf("context is required for NewParser"))
 	}
-	return &Parser{context: ctx}
+	return &Parser{context: ctx, forwardDecls: map[*ast.TypeDecl]ast.ForwardDeclaration{}}
 }
 
 func (p *Parser) SetText(text *[]rune) {
diff --git a/parser/type.go b/parser/type.go
index 9a36489..0505336 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -69,15 +68,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
-	if old := p.context.Get(res.Ident.Name); old != nil {
-		typeDecl, ok := old.Node.(*ast.TypeDecl)
-		if !ok {
-			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
-		}
-		fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
-		if !ok {
-			return nil, errors.Errorf("expects forward declaration but was %T", typeDecl.Type)
-		}
+	if fwd := p.forwardDeclaration(res.Ident.Name); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
 			return nil, err
 		}
@@ -88,6 +79,9 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		if err := p.context.Set(res); err != nil {
 			return nil, err
 		}
+		if fwd, ok := typ.(ast.ForwardDeclaration); ok {
+			p.forwardDecls[res] = fwd
+		}
 	}
 
 	{
@@ -105,6 +99,20 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	return res, nil
 }
 
+// Returns the forward declaration of the name which this parser has parsed or nil.
+// Other declarations of the name in outer scopes or other units are just hidden.
+func (p *Parser) forwardDeclaration(name string) ast.ForwardDeclaration {
+	decl := p.context.Get(name)
+	if decl == nil {
+		return nil
+	}
+	typeDecl, ok := decl.Node.(*ast.TypeDecl)
+	if !ok {
+		return nil
+	}
+	return p.forwardDecls[typeDecl]
+}
+
 func (p *Parser) ParseType() (ast.Type, error) {
 	t1 := p.CurrentToken()
 	switch t1.Type {
-- 
2.43.0


From 501b1923a8e3fb3ab8e852627472f3a05dba7bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:47 +0000
Subject: [PATCH 15/24] fix: let declarations hide the embedded types in types

Expressions already found the declaration which hides the embedded type,
but types didn't.
---
 parser/type_simple.go | 17 +++++++++++++++--
 parser/type_string.go |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser/type_simple.go b/parser/type_simple.go
index c235979..448b9b1 100644
--- a/parser/type_simple.go
+++ b/parser/type_simple.go
@@ -2,13 +2,26 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 	"github.com/pkg/errors"
 )
 
+// Returns the embedded type unless another declaration hides it.
+func (p *Parser) embeddedTypeDecl(kind ast.EmbeddedTypeKind, name string) *astcore.Decl {
+	r := ast.EmbeddedTypeDecl(kind, name)
+	if r == nil {
+		return nil
+	}
+	if decl := p.context.Get(name); decl != nil && decl != r {
+		return nil
+	}
+	return r
+}
+
 func (p *Parser) ParseRealType(required bool) (ast.RealType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkReal, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkReal, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
@@ -21,7 +34,7 @@ func (p *Parser) ParseRealType(required bool) (ast.RealType, error) {
 
 func (p *Parser) ParseOrdIdent(required bool) (ast.OrdIdent, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkOrdIdent, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkOrdIdent, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..5a73850 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -7,7 +7,7 @@ import (
 
 func (p *Parser) ParseStringType(required bool) (ast.StringType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkStringType, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
-- 
2.43.0


From f428f1b3adb65acb8f90118a93b5da5d73fa3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:15 +0000
Subject: [PATCH 16/24] fix: tell the file of a duplicate declaration

---
 parser/pcontext/program_context.go | 5 +++++
 parser/pcontext/unit_context.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/parser/pcontext/program_context.go b/parser/pcontext/program_context.go
index edad36d..fa61482 100644
--- a/parser/pcontext/program_context.go
+++ b/parser/pcontext/program_context.go
@@ -51,6 +51,11 @@ func (c *ProgramContext) Clone() Context {
 	}
 }
 
+// Set tells the path in its error because the locations of identifiers don't.
+func (c *ProgramContext) Set(decl astcore.DeclNode) error {
+	return errors.Wrapf(c.DeclMap.Set(decl), "failed to declare in %q", c.Path)
+}
+
 func (c *ProgramContext) GetPath() string {
 	return c.Path
 }
diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index bddb74c..52d1f0d 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -67,6 +67,11 @@ func (c *UnitContext) AssignUnits(usesClause ast.UsesClause) {
 	}
 }
 
+// Set tells the path in its error because the locations of identifiers don't.
+func (c *UnitContext) Set(decl astcore.DeclNode) error {
+	return errors.Wrapf(c.DeclMap.Set(decl), "failed to declare in %q", c.Path)
+}
+
 func (c *UnitContext) GetPath() string {
 	return c.Path
 }
-- 
2.43.0


From a925ce0ebab4cda1cf08350c7c73579e86533a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:53 +0000
Subject: [PATCH 17/24] fix: tell the place of a declaration which doesn't fit
 its forward declaration

---
 parser/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 0505336..380195a 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
+	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -70,7 +71,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	res.Type = typ
 	if fwd := p.forwardDeclaration(res.Ident.Name); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
-			return nil, err
+			return nil, errors.Wrapf(err, "invalid declaration of %s at %s", res.Ident.Name, p.PlaceString(ident))
 		}
 		for _, decl := range res.ToDeclarations() {
 			p.context.Overwrite(res.Ident.Name, decl)
-- 
2.43.0


From fbff15099a1d84186eb8f61335398e763f068b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:32 +0000
Subject: [PATCH 18/24] fix: stop at too deeply nested constructs instead of
 overflowing the stack

---
 parser/base.go       | 14 ++++++++++++++
 parser/block.go      |  6 ++++++
 parser/expression.go |  6 ++++++
 parser/statement.go  |  6 ++++++
 parser/type.go       |  6 ++++++
 parser/type_struc.go |  6 ++++++
 token/tokenizer.go   | 23 ++++++++++++++---------
 7 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 3fcbdd7..81ccbc7 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -15,8 +15,13 @@ type Parser struct {
 	context          Context
 	postSectionFuncs []func()
 	forwardDecls     map[*ast.TypeDecl]ast.ForwardDeclaration
+	nestLevel        int
 }
 
+// maxNestLevel limits how deep constructs can be nested, because the runtime kills
+// the process when the stack overflows.
+const maxNestLevel = 10000
+
 func NewParser(ctx Context) *Parser {
 	if ctx == nil {
 		panic(errors.Errorf("context is required for NewParser"))
@@ -127,6 +132,15 @@ func (p *Parser) PlaceString(t *token.Token) string {
 	return fmt.Sprintf("%s:%d:%d", p.context.GetPath(), t.Start.Line, t.Start.Col)
 }
 
+// Nest counts up the level of nested constructs. The returned function restores it.
+func (p *Parser) Nest() (func(), error) {
+	if p.nestLevel >= maxNestLevel {
+		return nil, p.TokenErrorf("too deeply nested %s", p.CurrentToken())
+	}
+	p.nestLevel++
+	return func() { p.nestLevel-- }, nil
+}
+
 func (p *Parser) SetupPostSectionFuncs() func() {
 	var backup []func()
 	p.postSectionFuncs, backup = []func(){}, p.postSectionFuncs
diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..ed3f5a3 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -6,6 +6,12 @@ import (
 )
 
 func (p *Parser) ParseBlock() (*ast.Block, error) {
+	unnest, err := p.Nest()
+	if err != nil {
+		return nil, err
+	}
+	defer unnest()
+
 	res := &ast.Block{}
 	if declSections, err := p.ParseDeclSections(); err != nil {
 		return nil, err
diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..c35bdfb 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -143,6 +143,12 @@ var MulOpPredicator = token.Some(
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
+	unnest, err := p.Nest()
+	if err != nil {
+		return nil, err
+	}
+	defer unnest()
+
 	t0 := p.CurrentToken()
 	t0Value := t0.Value()
 	if t0.Is(token.SpecialSymbol) {
diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..d1a108a 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -54,6 +54,12 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 }
 
 func (p *Parser) ParseStatement() (*ast.Statement, error) {
+	unnest, err := p.Nest()
+	if err != nil {
+		return nil, err
+	}
+	defer unnest()
+
 	res := &ast.Statement{}
 	labelId := p.CurrentToken()
 	labelDecl := p.context.Get(labelId.Value())
diff --git a/parser/type.go b/parser/type.go
index 380195a..8be3f16 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -115,6 +115,12 @@ func (p *Parser) forwardDeclaration(name string) ast.ForwardDeclaration {
 }
 
 func (p *Parser) ParseType() (ast.Type, error) {
+	unnest, err := p.Nest()
+	if err != nil {
+		return nil, err
+	}
+	defer unnest()
+
 	t1 := p.CurrentToken()
 	switch t1.Type {
 	case token.SpecialSymbol:
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..587cc25 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -147,6 +147,12 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 }
 
 func (p *Parser) ParseFieldList(terminator token.Predicator) (*ast.FieldList, error) {
+	unnest, err := p.Nest()
+	if err != nil {
+		return nil, err
+	}
+	defer unnest()
+
 	r := &ast.FieldList{}
 	casePred := token.ReservedWord.HasKeyword("CASE")
 	fieldDecls := ast.FieldDecls{}
diff --git a/token/tokenizer.go b/token/tokenizer.go
index cd66450..3b2ea97 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -45,16 +45,21 @@ var processors = []func(*runes.Cursor) *Token{
 }
 
 func (t *Tokenizer) GetNext() *Token {
+	for {
+		token := t.getNext()
+		if !t.loadSpace && token.Type == Space {
+			continue
+		} else if !t.loadComment && token.Type == Comment {
+			continue
+		}
+		return token
+	}
+}
+
+func (t *Tokenizer) getNext() *Token {
 	for _, proc := range processors {
-		token := proc(t.Cursor)
-		if token != nil {
-			if !t.loadSpace && token.Type == Space {
-				return t.GetNext()
-			} else if !t.loadComment && token.Type == Comment {
-				return t.GetNext()
-			} else {
-				return token
-			}
+		if token := proc(t.Cursor); token != nil {
+			return token
 		}
 	}
 	start := t.Position.Clone()
-- 
2.43.0


From bdd3cc759eae5fd2df1fa1e05b243ad68c3ba509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 19/24] fix: tell the place of an unexpected token for a method

---
 parser/type_class.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..a4ea824 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"strings"
 
 	"github.com/akm/tparser/ast"
@@ -272,7 +271,7 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 		}
 		res.Heading = heading
 	default:
-		return nil, fmt.Errorf("unexpected token for method: %s", t0)
+		return nil, p.TokenErrorf("unexpected token %s for method", t0)
 	}
 
 	directiveList, err := p.ClassMethodDirectiveList()
-- 
2.43.0


From 562963c582310f98772628255ab596ccd5674256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:31 +0000
Subject: [PATCH 20/24] fix: end the scope of an exception variable with its
 handler

---
 parser/statement_try.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..6d13499 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -149,6 +149,8 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	decl.Type = typ
 	if decl.Ident != nil {
+		// The handler is the scope of its variable.
+		defer p.context.StackDeclMap()()
 		if err := p.context.Set(decl); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From cc98c4fac62f3b38972ff19fb7fbfdb4d1fe0e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:32 +0000
Subject: [PATCH 21/24] fix: export a class instead of its forward declaration

The declaration map of a unit kept the forward declaration, so a class of another
unit derived from the class could not refer to its members.
---
 parser/unit_parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index bcdc7ed..059ba62 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -172,6 +172,13 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	for _, decl := range p.Unit.InterfaceSection.InterfaceDecls {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
+			// A class takes the place of its forward declaration.
+			if typeDecl, ok := declNode.(*ast.TypeDecl); ok {
+				for _, d := range typeDecl.ToDeclarations() {
+					declMap.Overwrite(d.Ident.Name, d)
+				}
+				continue
+			}
 			declMap.Set(declNode)
 		}
 	}
-- 
2.43.0


From b552eba9fe1955c19efbfb23e6d80a2706da2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:14 +0000
Subject: [PATCH 22/24] fix: a file type is not the type of its elements

FileType embedded its TypeId and so had its predicates: TYPE T1 = FILE OF T1; T2 = SET OF T1;
recursed until the stack overflowed.
---
 ast/type_struc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..35d3186 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -62,7 +62,7 @@ func (m *SetType) Children() Nodes {
 //   FILE OF TypeId [PortabilityDirective]
 //   ```
 type FileType struct {
-	*TypeId
+	TypeId *TypeId
 	Packed bool
 }
 
-- 
2.43.0


From 5f363c09117fc21804975d75c51dec490c21d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 23/24] fix: keep the end of a line when a cursor is cloned

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From 42175be03e2ebafe03839861d001e2a60a7e92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:43 +0000
Subject: [PATCH 24/24] fix: tell the place of an invalid external index

---
 parser/function_heading.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..c4d77ea 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
@@ -104,7 +103,7 @@ func (p *Parser) ParseExternalOptions() (*ast.ExternalOptions, error) {
 			}
 			val, err := strconv.ParseInt(f2.Value, 10, 64)
 			if err != nil {
-				return nil, errors.Errorf("Invalid index constant for extenal index %s", f2.Value)
+				return nil, p.TokenErrorf("invalid index constant for external index %s", t2)
 			}
 			v := int(val)
 			r.Index = &v
-- 
2.43.0


From f99bcc51b579d297a2da22ea62532fcb24950a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 01/57] fix: give every frame its own stack window and release
 it on return

---
 amanda/vm/src/vm.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..356cb0b 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -101,9 +101,10 @@ impl<'a> AmaVM<'a> {
     }
 
     fn init(&mut self, main: AmaFunc<'a>) {
-        self.sp = self.values.len() as isize - 1;
+        let bp = self.values.len() as isize;
+        self.reserve_stack_space(main.locals);
         self.frames.push(main).unwrap();
-        self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
+        self.frames.peek_mut().bp = bp;
     }
 
     fn op_push(&mut self, value: AmaValue<'a>) {
@@ -355,14 +356,9 @@ impl<'a> AmaVM<'a> {
                     let fn_val = self.op_pop();
                     match fn_val {
                         AmaValue::Func(mut func) => {
-                            if args > 0 {
-                                func.bp = self.sp - (args - 1);
-                                let extra = func.locals - args as usize;
-                                self.reserve_stack_space(extra);
-                            } else if func.locals > 0 {
-                                func.bp = self.sp + 1;
-                                self.reserve_stack_space(func.locals);
-                            }
+                            func.bp = self.sp - (args - 1);
+                            let extra = func.locals - args as usize;
+                            self.reserve_stack_space(extra);
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
                             if let FuncModule::Imported(mod_idx) = func.module {
@@ -394,7 +390,9 @@ impl<'a> AmaVM<'a> {
                 OpCode::Return => {
                     let val = self.op_pop();
                     let frame_bp = self.frames.peek().bp;
-                    self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
+                    //Release everything that belongs to the frame
+                    self.values.truncate(frame_bp as usize);
+                    self.sp = frame_bp - 1;
                     self.frames.pop().unwrap();
                     self.op_push(val);
                     let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-- 
2.43.0


From 9eb9f6e568e5a8800ce9fbd9335d99c1071be658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 02/57] fix: compile unary plus and report overflow when
 negating the smallest int

---
 amanda/compiler/codegen.py | 2 +-
 amanda/vm/src/vm.rs        | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..e6dd049 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -586,7 +586,7 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
-        else:
+        elif operator != TT.PLUS:  # Unary plus is the identity
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 356cb0b..9332c1f 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -248,7 +248,10 @@ impl<'a> AmaVM<'a> {
                     let op = OpCode::from(&op);
                     if let OpCode::OpInvert = op {
                         match operand {
-                            AmaValue::Int(num) => self.op_push(AmaValue::Int(-num)), 
+                            AmaValue::Int(num) => match num.checked_neg() {
+                                Some(num) => self.op_push(AmaValue::Int(num)),
+                                None => return self.panic_and_throw("Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis"),
+                            },
                             AmaValue::F64(num) => self.op_push(AmaValue::F64(-num)), 
                             _ => panic!("Fatal error!"),
                         };
-- 
2.43.0


From 89a9e3e196481f15609b41a697cf80a4b8ac6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 03/57] fix: discard the value of expression statements so
 loops do not grow the stack

---
 amanda/compiler/codegen.py | 31 ++++++++++++++++++++-----------
 amanda/vm/src/opcode.rs    |  4 +++-
 amanda/vm/src/vm.rs        |  3 +++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index e6dd049..4f020ce 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -121,6 +121,8 @@ class OpCode(Enum):
     BIND_MATCH_ARGS = auto()
     # Checks if the variant at TOS is has the integer tag specified by the 64-bit argument.
     MATCH_VARIANT = auto()
+    # Discards TOS.
+    POP = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -129,7 +131,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 43
+            num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -439,16 +441,26 @@ class ByteGen:
         self.scope_symtab = self.scope_symtab.enclosing_scope
         num_locals = len(self.func_locals)
 
+    def gen_statements(self, children):
+        for child in children:
+            self.gen(child)
+            # The value of an expression used as a statement is not needed
+            if isinstance(child, ast.Expr) and not isinstance(
+                child, (ast.Assign, ast.Set, ast.IndexSet)
+            ):
+                self.append_op(OpCode.POP)
+
     def compile_block(self, node):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_statements(node.children)
         self.exit_block()
 
     def gen_yieldblock(self, node: ast.YieldBlock):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_statements(node.children)
+        # A block that does not produce anything still evaluates to something
+        if not node.children or not isinstance(node.children[-1], ast.Produz):
+            self.load_const("falso")
         self.exit_block()
 
     def get_variant_index(self, variant: Variant) -> int:
@@ -695,8 +707,7 @@ class ByteGen:
         self.gen(node.condition)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
-        for child in block.children:
-            self.gen(child)
+        self.gen_statements(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
         self.patch_label_loc(after_loop)
@@ -731,8 +742,7 @@ class ByteGen:
         self.append_op(OpCode.OP_LESS)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
-        for child in block.children:
-            self.gen(child)
+        self.gen_statements(block.children)
         # update: control_var += inc
         if not range_expr.inc:
             self.load_const(1)
@@ -842,8 +852,7 @@ class ByteGen:
 
         if not func_symbol.is_builtin():
             self.enter_block(block.symbols)
-            for child in block.children:
-                self.gen(child)
+            self.gen_statements(block.children)
             self.exit_block()
 
         # default return
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 7bb0f8d..2d6e9bc 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -45,12 +45,13 @@ pub enum OpCode {
     BuildVariant,
     BindMatchArgs,
     MatchVariant,
+    Pop,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 42] = [
+        let ops: [OpCode; 43] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -93,6 +94,7 @@ impl From<&u8> for OpCode {
             OpCode::BuildVariant,
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
+            OpCode::Pop,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 9332c1f..912c5c8 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -238,6 +238,9 @@ impl<'a> AmaVM<'a> {
                         unreachable!("Value not a variant");
                     }
                 }
+                OpCode::Pop => {
+                    self.op_pop();
+                }
                 OpCode::IsNull => {
                     let is_null = self.op_pop().is_none();
                     self.op_push(AmaValue::Bool(is_null));
-- 
2.43.0


From 9c2fe4e80d2e6df56242a9fe282f23a2e28415be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 04/57] fix: evaluate the value of escolha once and compile
 nested escolhas

---
 amanda/compiler/codegen.py   | 22 ++++++++++++++++++
 amanda/compiler/transform.py | 45 +-----------------------------------
 2 files changed, 23 insertions(+), 44 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 4f020ce..e10fde9 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -689,6 +689,28 @@ class ByteGen:
 
         self.patch_label_loc(after_if)
 
+    def gen_escolha(self, node: ast.Escolha):
+        # The value being compared is evaluated only once
+        slot = len(self.func_locals)
+        self.func_locals[f"_escolha{slot}_"] = slot
+        self.gen(node.expression)
+        self.append_op(OpCode.SET_LOCAL, slot)
+
+        after_escolha = self.new_label()
+        for case in node.cases:
+            after_case = self.new_label()
+            self.gen(case.expression)
+            self.append_op(OpCode.GET_LOCAL, slot)
+            self.append_op(OpCode.OP_EQ)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
+            self.compile_block(case.block)
+            self.append_op(OpCode.JUMP, after_escolha)
+            self.patch_label_loc(after_case)
+
+        if node.default_case:
+            self.compile_block(node.default_case)
+        self.patch_label_loc(after_escolha)
+
     def gen_enquanto(self, node):
         after_loop = self.new_label()
         # Set the current loop exit
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..5fecdc3 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -8,7 +8,7 @@ from amanda.compiler.symbols.core import (
     MethodSym,
     VariableSymbol,
 )
-from amanda.compiler.types.builtins import Builtins, SrcBuiltins
+from amanda.compiler.types.builtins import SrcBuiltins
 
 from typing import cast, Callable
 
@@ -63,49 +63,6 @@ class ASTTransformer:
         if node.of_type(ast.Converta):
             return node
 
-    def transform_escolha(self, node: ast.Escolha) -> ast.ASTNode:
-        token = node.token
-        new_token = lambda tt, lexeme: Token(tt, lexeme, token.line, token.col)
-        equality_op = lambda left, right: ast.BinOp(
-            new_token(TT.DOUBLEEQUAL, "=="),
-            left=left,
-            right=right,
-            ty=Builtins.Bool,
-        )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
-            )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
-                )
-            return se_node
-
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
 
-- 
2.43.0


From 6847f097091251057a7a46b288133e63b4316f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 05/57] fix: keep the literal parts of format strings as text

---
 amanda/compiler/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..04d2d7e 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1179,6 +1179,7 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
@@ -1200,7 +1201,9 @@ class Parser:
         parts = []
 
         tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+            Token(
+                TT.STRING, lexeme=f'"{lexeme}"', line=token.line, col=token.col
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1235,7 +1238,7 @@ class Parser:
         if buff_str:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
-            return parts[0]
+            return parts[0] if parts else tokenify_str("")
         return ast.FmtStr(token, parts)
 
     def primary(self):
-- 
2.43.0


From 8c8191bce441088d26b9b7961751f438391c6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 06/57] fix: compound assignment to a field uses the operator

---
 amanda/compiler/parse.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 04d2d7e..4535582 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1001,12 +1001,23 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(
+                        token,
+                        left=copy.deepcopy(expr),
+                        right=self.equality(),
+                    ),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
                     expr,
-                    ast.BinOp(token, left=expr, right=self.equality()),
+                    ast.BinOp(
+                        token,
+                        left=copy.deepcopy(expr),
+                        right=self.equality(),
+                    ),
                 )
             else:
                 expr = ast.Assign(
-- 
2.43.0


From a048a01f9c53c5540606a2c551e0005dab4facb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 07/57] fix: count the lines of multi-line strings

---
 amanda/compiler/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 4535582..7483c51 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -154,8 +154,12 @@ class Lexer:
         result = StringIO()
         symbol = self.current_char
         start_pos = self.pos
+        start_line = self.line
         self.advance()
         while self.current_char != symbol:
+            if self.current_char == "\n":
+                self.line += 1
+                self.pos = 1
             if self.current_char == "\\":
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
@@ -178,7 +182,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From 2b083a43178c0c4671980e3ca32e17bdbed19582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 08/57] fix: promote int to real wherever the checker asks for
 it

---
 amanda/compiler/check/core.py |  1 +
 amanda/compiler/codegen.py    | 20 ++++++++++----------
 amanda/compiler/transform.py  |  4 ++++
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..f1aed00 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -963,6 +963,7 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. incompatibilidade entre os operandos da atribuição: '{index.eval_type}' e '{value.eval_type}'"
             )
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         node.eval_type = index.eval_type
 
     def visit_converta(self, node):
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index e10fde9..6a3484b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -430,8 +430,16 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        if self.leaves_value(node):
+            self.gen_auto_cast(node.prom_type)
         return result
 
+    def leaves_value(self, node: ast.ASTNode) -> bool:
+        # Assignments are expressions, but do not leave their value on the stack
+        return isinstance(node, ast.Expr) and not isinstance(
+            node, (ast.Assign, ast.Set, ast.IndexSet)
+        )
+
     def enter_block(self, scope):
         self.depth += 1
         self.scope_symtab = scope
@@ -445,9 +453,7 @@ class ByteGen:
         for child in children:
             self.gen(child)
             # The value of an expression used as a statement is not needed
-            if isinstance(child, ast.Expr) and not isinstance(
-                child, (ast.Assign, ast.Set, ast.IndexSet)
-            ):
+            if self.leaves_value(child):
                 self.append_op(OpCode.POP)
 
     def compile_block(self, node):
@@ -485,7 +491,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.name
@@ -515,11 +520,8 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
         var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -584,6 +586,7 @@ class ByteGen:
             var_sym = expr.left.var_symbol
             name = expr.left.token.lexeme
             self.load_variable(var_sym)
+            self.gen_auto_cast(expr.prom_type)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -602,7 +605,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -661,7 +663,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -911,7 +912,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 5fecdc3..7e0bb7c 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -38,6 +38,10 @@ class ASTTransformer:
             raise ValueError(
                 f"Node of type {type(node).__name__} has no parent."
             )
+        new_node.parent = parent
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent.for_each_child(self.replace_child(parent, node, new_node))
         return new_node
 
-- 
2.43.0


From 70cd09ccc347feebff36fea877c4ed78ce888fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 09/57] fix: read the field when a field is assigned from
 another field

---
 amanda/compiler/codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 6a3484b..5404436 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -985,7 +985,8 @@ class ByteGen:
         self.gen(node.target)
         self.load_name(node.member.lexeme)
         assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
+        # Only the target of an assignment is left as object + field
+        if node.child_of(ast.Set) and node.parent.target is node:
             return
         self.append_op(OpCode.GET_PROP)
 
-- 
2.43.0


From 7ff62c05b864404a51b1a90110e6d147caeb6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 10/57] fix: let the elements of a vector of texto be replaced

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f1aed00..61cd2b6 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -949,7 +949,7 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
+        idx_ty = index.target.eval_type
         if not idx_ty.supports_index_set():
             if idx_ty.tag == Types.TTEXTO:
                 self.error(
-- 
2.43.0


From 264c4321f129da9dea32f1cbb2a42694ff12cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 11/57] fix: match every iguala arm in order, with nested and
 default arms

The decision tree lost rows shared by many cases, dropped the default arm of
int and texto matches, and bindings of nested matches shared their slots.
---
 amanda/compiler/ast.py                  |  2 +
 amanda/compiler/check/exhaustiveness.py | 55 ++++++++++++++++---------
 amanda/compiler/check/iguala.py         | 44 +++++++++-----------
 amanda/compiler/codegen.py              | 31 +++++++++-----
 amanda/compiler/parse.py                |  2 +-
 amanda/compiler/symbols/core.py         | 12 +++++-
 6 files changed, 90 insertions(+), 56 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..1b79f4f 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -350,6 +350,8 @@ class Iguala(Expr):
     target: Expr
     arms: list[IgualaArm]
     target_binding: symbols.VariableSymbol | None = None
+    # Whether the value of the target must be stored before it is matched
+    store_target: bool = False
     ir: Any = None
 
     def __init__(self, token: Token, target: Expr, arms: list[IgualaArm]):
diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..6ef0058 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -9,7 +9,7 @@ from dataclasses import dataclass
 from amanda.compiler.check.checker import Checker
 from amanda.compiler.module import Module
 from amanda.compiler.symbols.base import Constructor, Type
-from amanda.compiler.symbols.core import Scope, VariableSymbol
+from amanda.compiler.symbols.core import Scope, VariableSymbol, unique_id
 from amanda.compiler.types.builtins import Builtins
 import amanda.compiler.ast as ast
 import amanda.compiler.tokens as tokens
@@ -53,12 +53,20 @@ class Row:
     guard: int | None
     body: Body
 
+    # The compilation of the rows of a case changes them, so a row that is
+    # relevant to many cases must be copied.
+    def copy(self) -> Row:
+        return Row(
+            list(self.columns),
+            self.guard,
+            Body(list(self.body.bindings), self.body.value),
+        )
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
-        try:
-            idx = list(map(lambda c: c.variable, self.columns)).index(variable)
-            return self.columns.pop(idx)
-        except ValueError:
-            return None
+        for idx, column in enumerate(self.columns):
+            if column.variable is variable:
+                return self.columns.pop(idx)
+        return None
 
 
 @dataclass
@@ -210,7 +218,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
@@ -231,12 +239,14 @@ class Match:
         match tree:
             case DSuccess(body):
                 for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
-            case DSwitch(cases=cases):
+                    binding = VariableSymbol(name, var.type, var.module)
+                    binding.out_id = unique_id()
+                    unwrap(body.value.symbols).define(name, binding)
+            case DSwitch(cases=cases, fallback=fallback):
                 for case in cases:
                     self._declare_block_symbols(case.body)
+                if fallback:
+                    self._declare_block_symbols(fallback)
             case _:
                 pass
 
@@ -289,7 +299,11 @@ class IgualaCompiler:
 
         if rows and not rows[0].columns:
             row = rows.pop(0)
-            self.diagnostics.reachable.append(row.body.value)
+            # The same block can be reached through many cases
+            if not any(
+                block is row.body.value for block in self.diagnostics.reachable
+            ):
+                self.diagnostics.reachable.append(row.body.value)
             guard = row.guard
             return (
                 DGuard(guard, row.body, self._compile_rows(rows))
@@ -354,18 +368,21 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
+                index = tested.get(key)
+                if index is not None:
                     raw_cases[index][2].append(row)
                     continue
 
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                raw_cases.append(
+                    (cons, [], [*map(Row.copy, fallback_rows), row])
+                )
             else:
+                # The row also applies to every case seen so far
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.copy())
                 fallback_rows.append(row)
 
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
-
         cases = list(
             map(
                 lambda case: Case(
@@ -419,8 +436,8 @@ class IgualaCompiler:
                         cols.append(Column(var, pat))
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
-                for _, _, rows in cases:
-                    rows.append(row)
+                for _, _, case_rows in cases:
+                    case_rows.append(row.copy())
 
         return list(
             map(
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..549ba17 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -30,11 +30,10 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
         case ast.Alvo():
             iguala.target_binding = target.var_symbol
         case _:
-            sym = symbols.VariableSymbol(
-                "_target_", target.eval_type, checker.ctx_module
+            iguala.target_binding = scope.new_unique_var(
+                target.eval_type, checker.ctx_module
             )
-            checker.define_symbol(sym, checker.scope_depth, scope)
-            iguala.target_binding = sym
+            iguala.store_target = True
 
     compiler = IgualaCompiler(scope, checker.ctx_module)
     tree = compiler.compile(iguala)
@@ -80,7 +79,6 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 def check_binding_pattern(
     checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
 ):
-    arm.pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -94,8 +92,13 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
             sym = tycheck.unwrap(
@@ -108,39 +111,32 @@ def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
                             Errors.VARIANT_TAKES_NO_ARGS,
                             variant=sym.qualified_name(),
                         )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
+                    for sub_pattern, ty in zip(args, params):
+                        check_pattern(checker, arm, sub_pattern, ty)
                 case _:
                     tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
+            pattern.eval_type = sym.uniao
+            pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
+            pattern.eval_type = Builtins.Texto
         case ast.BindingPattern(var=var):
+            pattern.eval_type = target_ty
             check_binding_pattern(checker, arm, target_ty, var)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
+    if pattern.eval_type != target_ty:
         checker.error(
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
-            received=arm.pattern.eval_type,
+            received=pattern.eval_type,
         )
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    check_pattern(checker, arm, arm.pattern, iguala.target.eval_type)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 5404436..1511f6b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -259,6 +259,8 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            # The tag of a variant must be the same in every module
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
@@ -530,8 +532,7 @@ class ByteGen:
             raise ValueError("Symbol should have been resolved before codegen!")
         match symbol:
             case Variant():
-                tag = self.uniao_variants[symbol.variant_id()]
-                self.load_const(tag)
+                self.load_const(self.get_variant_index(symbol))
                 if not symbol.is_callable():
                     # No args means we can generate the code for creating the variant here
                     self.append_op(OpCode.BUILD_VARIANT, 0)
@@ -572,9 +573,9 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
@@ -781,6 +782,9 @@ class ByteGen:
         self.exit_block()
 
     def gen_iguala(self, node: ast.Iguala):
+        if node.store_target:
+            self.gen(node.target)
+            self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
@@ -792,8 +796,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -808,19 +812,18 @@ class ByteGen:
                 self.append_op(OpCode.OP_EQ)
             case VariantCons(tag=tag, uniao=uniao):
                 variant = uniao.variant_by_tag(tag)
-                # TODO: Fix this please!!!
-                idx = self.uniao_variants[variant.variant_id()]
+                idx = self.get_variant_index(variant)
                 self.append_op(OpCode.MATCH_VARIANT, idx)
             case _:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
             case VariantCons(name=name):
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
@@ -830,7 +833,11 @@ class ByteGen:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
         after_if = self.new_label()
         after_block = self.new_label()
@@ -855,6 +862,8 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
         self.patch_label_loc(after_if)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 7483c51..d7053f0 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -847,7 +847,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..7cc906a 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -1,10 +1,20 @@
 from __future__ import annotations
+import itertools
 from dataclasses import dataclass
 from typing import Optional, Dict, cast, Any
 from amanda.compiler.module import Module
 from amanda.compiler.symbols.base import Symbol, TypeVar, Typed, Type
 
 
+_unique_ids = itertools.count()
+
+
+# Id of a local generated by the compiler. Must not clash with any other local
+# of a function, regardless of the scopes they are declared in.
+def unique_id() -> str:
+    return f"_u{next(_unique_ids)}_"
+
+
 @dataclass
 class VariableSymbol(Typed):
     name: str
@@ -165,7 +175,7 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
+        symbol = VariableSymbol(unique_id(), type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From a800d7593559f3d1ca0fa70874fa016dffbeb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 12/57] fix: resolve methods and items of other modules by
 symbol

Calls renamed symbols shared by every module and changed the parameters of
methods, so repeated calls, methods that are never called and methods with the
same name did not work.
---
 amanda/compiler/check/core.py   |  2 +-
 amanda/compiler/check/iguala.py |  6 ++++++
 amanda/compiler/codegen.py      | 17 ++++++++++++++---
 amanda/compiler/symbols/core.py |  2 ++
 amanda/compiler/transform.py    | 23 +++--------------------
 5 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 61cd2b6..f3ff092 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -520,7 +520,7 @@ class Analyzer(ast.Visitor):
         if node.of_type(ast.MethodDecl):
             symbol.is_property = True
         symbol.is_global = True
-        self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
+        self.ctx_scope.define(name, symbol)
         scope, params = self.define_func_scope(name, node.params)
         symbol.params = params
         return (scope, params)
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 549ba17..9ec4505 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -72,6 +72,12 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 expected=iguala.eval_type,
                 actual=block.eval_type,
             )
+    # The remaining arms can never be selected
+    iguala.arms = [
+        arm
+        for arm in iguala.arms
+        if any(arm.body is block for block in tree.diagnostics.reachable)
+    ]
     iguala.ir = tree
     checker.leave_scope()
 
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 1511f6b..5c75ad1 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -494,8 +494,16 @@ class ByteGen:
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
 
+    def runtime_name(self, symbol: Symbol) -> str:
+        # Name of a global at runtime
+        return (
+            symbol.out_id
+            if isinstance(symbol, symbols.MethodSym)
+            else symbol.name
+        )
+
     def load_variable(self, symbol: Symbol):
-        name = symbol.name
+        name = self.runtime_name(symbol)
         sym_module = cast(symbols.Typed, symbol).module.fpath
         typed_sym = cast(symbols.Typed, symbol)
         # Guarantee item is in the name table
@@ -869,14 +877,17 @@ class ByteGen:
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
 
-        name = func_symbol.name
-        name_idx = self.get_table_index(func_symbol.name, self.NAME_TABLE)
+        name = self.runtime_name(func_symbol)
+        self.get_table_index(name, self.NAME_TABLE)
         func_end = self.new_label()
         self.append_op(OpCode.JUMP, func_end)
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
         self.func_locals = {}
+        if isinstance(func_symbol, symbols.MethodSym):
+            # The instance is always the first argument of a method
+            self.func_locals["alvo"] = 0
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 7cc906a..33c7b3f 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -105,6 +105,8 @@ class MethodSym(FunctionSymbol):
         self.target_ty = target_ty
         self.return_ty = return_ty
         self.is_property = True
+        # Many types can have a method with the same name
+        self.out_id = target_ty.full_field_path(name)
 
     def __str__(self):
         params = ",".join(self.params)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 7e0bb7c..f1727e0 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -6,7 +6,6 @@ from amanda.compiler.tokens import TokenType as TT, Token
 from amanda.compiler.symbols.core import (
     FunctionSymbol,
     MethodSym,
-    VariableSymbol,
 )
 from amanda.compiler.types.builtins import SrcBuiltins
 
@@ -96,31 +95,16 @@ class ASTTransformer:
         if callee.of_type(ast.Get) and callee.target.eval_type.is_module():
             # A call to a function in another module via a module alias
             sym = cast(FunctionSymbol, node.symbol)
-            # Add func symbol to symbol table
-            # Prefix with the name of the module to avoid overwriting
-            # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
-            """
-            call_node = ast.Call(callee=var, fargs=node.fargs)
-            call_node.symbol = sym
-            return call_node
-            """
         elif isinstance(node.symbol, MethodSym):
             # Common method call
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
             node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
         else:
             raise NotImplementedError("Unknown case")
+        # The symbol may belong to another module, so it can not be resolved by name
         var = var_node(sym.name, node.token)
+        var.var_symbol = sym
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
@@ -130,9 +114,8 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
             var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
+            var.var_symbol = sym
             return var
         else:
             return (
-- 
2.43.0


From 8925283eaf8ab2a18040ae4a359682151f41133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 13/57] fix: report the line and module of every frame and run
 imported modules in their own context

---
 amanda/compiler/codegen.py | 34 +++++++++++-----------------------
 amanda/vm/src/binload.rs   | 17 +++++++++++++----
 amanda/vm/src/vm.rs        | 19 +++++++++++--------
 3 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 5c75ad1..c2765a7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -197,9 +197,9 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps ranges of bytecode offsets to source lines.
+        # Each item is [first offset, last offset, line]
+        self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -255,15 +255,12 @@ class ByteGen:
 
         compiled_imports = []
         for mod in imports.values():
-            if mod.fpath in self.modules and mod.compiled:
-                continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
             # The tag of a variant must be the same in every module
             compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
-            mod.compiled = True
 
         self.compile_block(program)
         assert self.depth == -1, "A block was not exited in some local scope!"
@@ -278,17 +275,9 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
-            if lineno == 0:
+        for offsets in self.src_map:
+            if offsets[2] == 0:
                 continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
             src_map.extend(offsets)
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
@@ -319,14 +308,10 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            self.src_map[-1][1] = self.ip
         else:
-            self.src_map[self.lineno] = [self.ip]
+            self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
@@ -427,6 +412,7 @@ class ByteGen:
         node_class = type(node).__name__.lower()
         method_name = f"gen_{node_class}"
         gen_method = getattr(self, method_name, self.bad_gen)
+        prev_lineno = self.lineno
         self.lineno = getattr(node, "lineno", self.lineno)
         if node_class == "block":
             result = gen_method(node, args)
@@ -434,6 +420,8 @@ class ByteGen:
             result = gen_method(node)
         if self.leaves_value(node):
             self.gen_auto_cast(node.prom_type)
+        # What is left of the enclosing node belongs to its own line
+        self.lineno = prev_lineno
         return result
 
     def leaves_value(self, node: ast.ASTNode) -> bool:
diff --git a/amanda/vm/src/binload.rs b/amanda/vm/src/binload.rs
index 731a84f..213af43 100644
--- a/amanda/vm/src/binload.rs
+++ b/amanda/vm/src/binload.rs
@@ -243,13 +243,22 @@ pub fn load_bin<'bin>(amac_bin: &'bin mut [u8]) -> (Module<'bin>, Vec<Module<'bi
     let mut prog_data = unpack_bson_doc(amac_bin);
     let imports = bson_take!(BSONType::Array, prog_data.remove("imports").unwrap())
         .into_iter()
-        .map(|module| build_module(bson_take!(BSONType::Doc, module)))
+        .enumerate()
+        .map(|(idx, module)| {
+            build_module(
+                bson_take!(BSONType::Doc, module),
+                FuncModule::Imported(idx),
+            )
+        })
         .collect();
-    let module = build_module(prog_data);
+    let module = build_module(prog_data, FuncModule::Main);
     (module, imports)
 }
 
-fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>) -> Module<'bin> {
+fn build_module<'bin>(
+    mut prog_data: HashMap<String, BSONType>,
+    main_module: FuncModule,
+) -> Module<'bin> {
     let raw_consts = prog_data.remove("constants").unwrap().take_vec();
     let mut constants = Vec::with_capacity(raw_consts.len());
     raw_consts
@@ -336,7 +345,7 @@ fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>) -> Module<'bin>
             last_i: 0,
             ip: 0,
             locals: entry_locals as usize,
-            module: FuncModule::Main,
+            module: main_module,
         },
         functions,
         globals: Default::default(),
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 912c5c8..944b29c 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -41,7 +41,7 @@ impl<'a> FrameStack<'a> {
         Ok(())
     }
 
-    pub fn pop(&mut self) -> Result<AmaFunc, ()> {
+    pub fn pop(&mut self) -> Result<AmaFunc<'a>, ()> {
         if self.sp < -1 {
             Err(())
         } else {
@@ -401,11 +401,7 @@ impl<'a> AmaVM<'a> {
                     self.sp = frame_bp - 1;
                     self.frames.pop().unwrap();
                     self.op_push(val);
-                    let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-                        &self.imports[mod_idx]
-                    } else {
-                        self.main_module
-                    };
+                    let ctx_module = self.module_of(self.frames.peek());
                     self.ctx_module.replace(ctx_module);
                     continue;
                 }
@@ -559,6 +555,13 @@ impl<'a> AmaVM<'a> {
         Ok(())
     }
 
+    fn module_of(&self, func: &AmaFunc<'a>) -> &'a Module<'a> {
+        match func.module {
+            FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+            FuncModule::Main => self.main_module,
+        }
+    }
+
     fn panic_and_throw(&mut self, error: &str) -> Result<(), AmaErr> {
         let mut frames_sp = self.frames.sp;
         let mut err_str = if frames_sp > 0 {
@@ -570,14 +573,14 @@ impl<'a> AmaVM<'a> {
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, &self.module_of(&func).src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, &self.module_of(&func).src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From 2ce58fcaaf6e86d051083d9e331578ce0a862b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 14/57] fix: report input and output failures as run-time
 errors and keep the last line of the input whole

---
 amanda/vm/src/lib.rs                        |  6 ++-
 amanda/vm/src/modules/builtins/embutidos.rs | 55 ++++++++-------------
 amanda/vm/src/output.rs                     | 13 +++++
 amanda/vm/src/vm.rs                         |  8 ++-
 4 files changed, 45 insertions(+), 37 deletions(-)
 create mode 100644 amanda/vm/src/output.rs

diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index 807d667..d17d4ec 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -1,4 +1,6 @@
 use alloc::Alloc;
+use std::io;
+use std::io::Write;
 use std::slice;
 use vm::AmaVM;
 
@@ -8,6 +10,7 @@ mod binload;
 mod errors;
 mod modules;
 mod opcode;
+mod output;
 mod values;
 mod vm;
 
@@ -27,7 +30,8 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
 
     let mut vm = AmaVM::new(&main_module, &imports, alloc);
     if let Err(err) = vm.run(&main_module) {
-        eprint!("{}", err);
+        //There is nowhere left to report that the error output is not available
+        let _ = write!(io::stderr(), "{}", err);
         ERR
     } else {
         OK
diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..d13d66c 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -2,26 +2,21 @@ use super::utils::exports;
 use super::AmaResult;
 use crate::alloc::Alloc;
 use crate::ama_value::AmaValue;
+use crate::output::write_value;
 use crate::values::amatype::Type;
 use crate::values::function::{FuncArgs, NativeFunc};
 use std::borrow::Cow;
 use std::io;
-use std::io::Write;
 use unicode_segmentation::UnicodeSegmentation;
 
 /* Builtin functions*/
 fn escrevaln<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let value = &args[0];
-
-    println!("{}", value);
+    write_value(&args[0], "\n")?;
     Ok(AmaValue::None)
 }
 
 fn escreva<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let value = &args[0];
-
-    print!("{}", value);
-    io::stdout().flush().unwrap();
+    write_value(&args[0], "")?;
     Ok(AmaValue::None)
 }
 
@@ -29,44 +24,34 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     escreva(args, alloc)?;
 
     let mut input = String::from("");
-    //TODO: Propagate possible errors to caller
-    io::stdin().read_line(&mut input).unwrap();
-    //Remove newline at the end
-    debug_assert!(
-        input.remove(input.len() - 1) == 0xA as char,
-        "Removing wrong char"
-    );
+    match io::stdin().read_line(&mut input) {
+        Ok(0) => return Err("Fim inesperado dos dados de entrada".to_string()),
+        Ok(_) => (),
+        Err(_) => return Err("Não foi possível ler os dados de entrada".to_string()),
+    };
+    //Remove newline at the end. The last line of the input may not have one
+    if input.ends_with('\n') {
+        input.pop();
+    }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
 }
 
 fn leia_int<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_int = input.unwrap().take_str().parse::<i64>();
-        if let Err(_) = maybe_int {
-            Err("Valor introduzido não é um inteiro válido".to_string())
-        } else {
-            Ok(AmaValue::Int(maybe_int.unwrap()))
-        }
+    let maybe_int = leia(args, alloc)?.take_str().parse::<i64>();
+    if let Err(_) = maybe_int {
+        Err("Valor introduzido não é um inteiro válido".to_string())
     } else {
-        unreachable!()
+        Ok(AmaValue::Int(maybe_int.unwrap()))
     }
 }
 
 fn leia_real<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
-    let input = leia(args, alloc);
-    if input.is_ok() {
-        //TODO: Propagate possible errors to caller
-        let maybe_double = input.unwrap().take_str().parse::<f64>();
-        if let Err(_) = maybe_double {
-            Err("Valor introduzido não é um número real válido".to_string())
-        } else {
-            Ok(AmaValue::F64(maybe_double.unwrap()))
-        }
+    let maybe_double = leia(args, alloc)?.take_str().parse::<f64>();
+    if let Err(_) = maybe_double {
+        Err("Valor introduzido não é um número real válido".to_string())
     } else {
-        unreachable!()
+        Ok(AmaValue::F64(maybe_double.unwrap()))
     }
 }
 
diff --git a/amanda/vm/src/output.rs b/amanda/vm/src/output.rs
new file mode 100644
index 0000000..d1d84b8
--- /dev/null
+++ b/amanda/vm/src/output.rs
@@ -0,0 +1,13 @@
+use crate::ama_value::AmaValue;
+use crate::errors::AmaErr;
+use std::io;
+use std::io::Write;
+
+/// Writes a value to the standard output and makes sure that it got there.
+/// If the output is not accepting data, the program can not go on as if it was.
+pub fn write_value(value: &AmaValue, end: &str) -> Result<(), AmaErr> {
+    let mut stdout = io::stdout().lock();
+    write!(stdout, "{}{}", value, end)
+        .and_then(|_| stdout.flush())
+        .map_err(|_| "Não foi possível escrever os dados na saída".to_string())
+}
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 944b29c..5625aca 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -9,6 +9,7 @@ use crate::modules::module::{Module, MGlobals};
 use crate::errors::AmaErr;
 use crate::alloc::{Alloc, Ref};
 use crate::opcode::OpCode;
+use crate::output::write_value;
 use crate::modules::builtins;
 use unicode_segmentation::UnicodeSegmentation;
 use std::convert::From;
@@ -203,7 +204,12 @@ impl<'a> AmaVM<'a> {
                     let idx = self.get_u16_arg() as usize;
                     self.op_push(AmaValue::Registo(&self.ctx_module.unwrap().registos[idx]))
                 }
-                OpCode::Mostra => println!("{}", self.op_pop()),
+                OpCode::Mostra => {
+                    let value = self.op_pop();
+                    if let Err(msg) = write_value(&value, "\n") {
+                        return self.panic_and_throw(&msg);
+                    }
+                }
                 //Binary Operations
                 OpCode::OpAdd
                 | OpCode::OpMinus
-- 
2.43.0


From f320e9378bbb492ca94e2b0719827f8469db6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 15/57] fix: make the rows of vec() independent and report
 vectors that do not fit in memory

---
 amanda/vm/src/modules/builtins/embutidos.rs | 39 +++++++++++++--------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index d13d66c..dbca745 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -2,6 +2,7 @@ use super::utils::exports;
 use super::AmaResult;
 use crate::alloc::Alloc;
 use crate::ama_value::AmaValue;
+use crate::errors::AmaErr;
 use crate::output::write_value;
 use crate::values::amatype::Type;
 use crate::values::function::{FuncArgs, NativeFunc};
@@ -77,6 +78,14 @@ fn txt_contem<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a
     }
 }
 
+fn alloc_elements<'a>(size: usize) -> Result<Vec<AmaValue<'a>>, AmaErr> {
+    let mut elements = Vec::new();
+    match elements.try_reserve_exact(size) {
+        Ok(()) => Ok(elements),
+        Err(_) => Err("Não há memória suficiente para criar o vector".to_string()),
+    }
+}
+
 //TODO: Maybe optimize this
 fn build_vec<'a>(
     dim: usize,
@@ -84,26 +93,26 @@ fn build_vec<'a>(
     dims: &[AmaValue],
     el_type: Type,
     alloc: &mut Alloc<'a>,
-) -> Vec<AmaValue<'a>> {
+) -> Result<Vec<AmaValue<'a>>, AmaErr> {
     let size = dims[dim].take_int() as usize;
+    let mut container = alloc_elements(size)?;
     if dim == n_dims {
-        match el_type {
-            Type::Int => vec![AmaValue::Int(0); size as usize],
-            Type::Real => vec![AmaValue::F64(0.0); size],
-            Type::Bool => vec![AmaValue::Bool(false); size],
-            Type::Texto => vec![AmaValue::Str(Cow::Owned(String::new())); size],
+        let initial = match el_type {
+            Type::Int => AmaValue::Int(0),
+            Type::Real => AmaValue::F64(0.0),
+            Type::Bool => AmaValue::Bool(false),
+            Type::Texto => AmaValue::Str(Cow::Owned(String::new())),
             _ => unreachable!("Only primitives types should have this"),
-        }
+        };
+        container.resize(size, initial);
     } else {
-        if size == 0 {
-            Vec::with_capacity(0)
-        } else {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
-            container
+        //Every row is a vector of its own, down to the last dimension
+        for _ in 0..size {
+            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc)?;
+            container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
         }
     }
+    Ok(container)
 }
 
 fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
@@ -118,7 +127,7 @@ fn vec<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
             ));
         }
     }
-    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc);
+    let built_vec = build_vec(0, n_dims - 1, dims, el_type, alloc)?;
     let vec = AmaValue::Vector(alloc.alloc_ref(built_vec));
     Ok(vec)
 }
-- 
2.43.0


From ada8e14642ed453783ea6724ec3f2bc4cdc34c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 16/57] fix: keep the locals of different depths apart

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f3ff092..e0129d5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,7 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
-- 
2.43.0


From 979d6831dc2a30ee109056a979183563c17ce37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 17/57] fix: reject functions whose senaose branches do not
 return and report functions that end without a value

---
 amanda/compiler/check/core.py |  4 ++++
 amanda/compiler/codegen.py    | 14 ++++++++++----
 amanda/vm/src/opcode.rs       |  4 +++-
 amanda/vm/src/vm.rs           |  3 +++
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index e0129d5..e9f773e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,6 +100,10 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index c2765a7..f072879 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -123,6 +123,8 @@ class OpCode(Enum):
     MATCH_VARIANT = auto()
     # Discards TOS.
     POP = auto()
+    # Reports that a function that must return a value ended without doing so.
+    NO_RETURN = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -131,7 +133,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 44
+            num_ops == 45
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -886,9 +888,13 @@ class ByteGen:
             self.gen_statements(block.children)
             self.exit_block()
 
-        # default return
-        self.load_const("falso")
-        self.append_op(OpCode.RETURN)
+        if func_symbol.type != Builtins.Vazio:
+            # Every path that gives a value to the caller has already returned
+            self.append_op(OpCode.NO_RETURN)
+        else:
+            # default return
+            self.load_const("falso")
+            self.append_op(OpCode.RETURN)
         num_locals = len(self.func_locals)
         self.func_locals = prev_func_locals
 
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 2d6e9bc..ac8541b 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -46,12 +46,13 @@ pub enum OpCode {
     BindMatchArgs,
     MatchVariant,
     Pop,
+    NoReturn,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 43] = [
+        let ops: [OpCode; 44] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -95,6 +96,7 @@ impl From<&u8> for OpCode {
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
             OpCode::Pop,
+            OpCode::NoReturn,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 5625aca..6691f60 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -247,6 +247,9 @@ impl<'a> AmaVM<'a> {
                 OpCode::Pop => {
                     self.op_pop();
                 }
+                OpCode::NoReturn => {
+                    return self.panic_and_throw("A função terminou sem retornar um valor");
+                }
                 OpCode::IsNull => {
                     let is_null = self.op_pop().is_none();
                     self.op_push(AmaValue::Bool(is_null));
-- 
2.43.0


From 26736a7ddf3be61522ceadec4f4269cc84ba9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 18/57] fix: initialise imported modules before their importers
 and declare their names in every importer

---
 amanda/compiler/check/core.py | 43 +++++++++++++++++++++++++++++++----
 amanda/compiler/module.py     |  5 +++-
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index e9f773e..c08cb3e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -41,7 +41,13 @@ class Analyzer(ast.Visitor):
     ID_IN_USE = "O identificador '{name}' já foi declarado neste escopo"
     INVALID_REF = "o identificador '{name}' não é uma referência válida"
 
-    def __init__(self, filename: str, import_paths: list[str], module: Module):
+    def __init__(
+        self,
+        filename: str,
+        import_paths: list[str],
+        module: Module,
+        imports: dict[str, Module] | None = None,
+    ):
         # Relative path to the file being run
         self.filename = filename
         # Dirs to be used when resolving relative imports
@@ -55,7 +61,11 @@ class Analyzer(ast.Visitor):
         self.ctx_func = None
         self.ctx_yield_block: ast.YieldBlock | None = None
         self.in_loop = False
-        self.imports = {}
+        # Modules loaded so far, each one after the modules that it imports
+        self.imports: dict[str, Module] = {} if imports is None else imports
+        if imports is None:
+            # Methods that belong to a previous program
+            Primitive.methods.clear()
         # Module currently being executed
         self.ctx_module: Module = module
         # Scope used primarily to store generic types
@@ -330,8 +340,9 @@ class Analyzer(ast.Visitor):
         return self.ctx_module, self.imports
 
     def load_module_scoped(self, module: Module) -> tuple[Module, dict]:
-        analyzer = Analyzer(module.fpath, self.import_paths, module)
-        analyzer.imports = self.imports
+        analyzer = Analyzer(
+            module.fpath, self.import_paths, module, self.imports
+        )
         return analyzer.visit_module(parse(module.fpath))
 
     def define_module_alias(
@@ -366,6 +377,22 @@ class Analyzer(ast.Visitor):
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
+    def define_module_globals(self, imported_mod: Module):
+        """Declares in the global scope the symbols of a module that has already been loaded"""
+        visible = [imported_mod]
+        for mod in visible:
+            visible += [m for m in mod.global_imports if m not in visible]
+        paths = [mod.fpath for mod in visible]
+
+        for name, sym in list(imported_mod.ast.symbols.symbols.items()):
+            is_alias = isinstance(sym, Typed) and sym.type.is_module()
+            if is_alias or sym.module.fpath not in paths:
+                continue
+            if self.global_scope.get(name) is sym:
+                continue
+            self.assert_can_use_ident(self.ctx_node, name)
+            self.global_scope.define(name, sym)
+
     def load_module(
         self,
         module: Module,
@@ -391,7 +418,8 @@ class Analyzer(ast.Visitor):
                         usa_items=usa_items,
                     )
                 case _:
-                    pass
+                    self.define_module_globals(existing_mod)
+                    self.ctx_module.global_imports.append(existing_mod)
             return
 
         # Check for a cycle
@@ -405,10 +433,13 @@ class Analyzer(ast.Visitor):
         prev_module = self.ctx_module
         self.ctx_module = module
         self.imports[module.fpath] = module
+        module.loaded = False
+        module.global_imports = []
         # TODO: Handle errors while loading another module
         match mode:
             case ast.UsaMode.Global:
                 self.visit_module(parse(module.fpath))
+                prev_module.global_imports.append(module)
             case ast.UsaMode.Scoped:
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
@@ -428,6 +459,8 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # Modules that were imported by this one must be initialized first
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
diff --git a/amanda/compiler/module.py b/amanda/compiler/module.py
index 4c89259..2045e7d 100644
--- a/amanda/compiler/module.py
+++ b/amanda/compiler/module.py
@@ -1,4 +1,5 @@
-from dataclasses import dataclass
+from __future__ import annotations
+from dataclasses import dataclass, field
 from typing import Any
 from os import path
 
@@ -10,6 +11,8 @@ class Module:
     loaded: bool = False
     builtin: bool = False
     compiled: bool = False
+    # Modules that had all of their symbols imported into this one
+    global_imports: list[Module] = field(default_factory=list)
 
     def __str__(self) -> str:
         _, tail = path.split(self.fpath)
-- 
2.43.0


From 8d2b43e89c1afb51e5b083a1170c46d1589bcf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 19/57] fix: diagnose unreadable, undecodable and too deeply
 nested sources and exit with failure

---
 amanda/__main__.py       |  7 ++++++-
 amanda/compiler/error.py | 29 +++++++++++++++++----------
 amanda/compiler/parse.py | 42 +++++++++++++++++++++++++++++-----------
 3 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..a723d8d 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -28,12 +28,17 @@ def run_frontend(filename) -> tuple:
         return valid_program
     except AmandaError as e:
         throw_error(e)
+    except OSError as e:
+        sys.exit(f"Não foi possível ler o ficheiro '{e.filename}': {e.strerror}")
 
 
 def run_file(args):
     module, imports = run_frontend(args.file)
     compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    try:
+        bin_obj = compiler.compile(imports)
+    except AmandaError as e:
+        throw_error(e)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..85044cd 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -50,6 +50,14 @@ class AmandaError(Exception):
     def common_error(cls, fpath: str, message: str, line: int) -> AmandaError:
         return cls(cls.COMMON_ERR, fpath, message, line)
 
+    @classmethod
+    def too_complex(cls, fpath: str, line: int) -> AmandaError:
+        return cls.common_error(
+            fpath,
+            "As instruções ou expressões do programa têm demasiados níveis",
+            line,
+        )
+
     @classmethod
     def runtime_err(cls, message: str) -> AmandaError:
         return cls(cls.RUNTIME_ERR, "", message, -1)
@@ -88,18 +96,19 @@ def fmt_error(context: str, error: AmandaError) -> str:
 def throw_error(err: AmandaError) -> NoReturn:
     # Attempt to get error line from file
     filename = path.abspath(err.fpath)
-    assert path.isfile(filename), "Invalid filename supplied to error"
-    context = None
-    with open(filename, "r", encoding="utf8") as f:
-        for lineno, line in enumerate(f):
-            if lineno == err.line - 1:
-                context = line.strip()
-                break
-    # Line should always be valid because it came from file
-    assert context is not None, "Context should always be a line from the file"
+    context = ""
+    try:
+        with open(filename, "r", encoding="utf8", errors="replace") as f:
+            for lineno, line in enumerate(f):
+                if lineno == err.line - 1:
+                    context = line.strip()
+                    break
+    except OSError:
+        # The error can be reported without showing the line
+        pass
 
     sys.stderr.write(fmt_error(context, err))
-    sys.exit()
+    sys.exit(1)
 
 
 def get_info_from_tb(exception: Exception, filename: str) -> Any:
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index d7053f0..b697ff8 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -16,6 +16,7 @@ class Lexer:
     EOF = "__eof__"
     # Errors that happen during tokenization
     INVALID_SYMBOL = "O símbolo '{symbol}' não foi reconhecido"
+    INVALID_NUMBER = "O número tem demasiados dígitos"
     INVALID_STRING = "A sequência de caracteres não foi delimitada"
 
     def __init__(self, filename, src):
@@ -122,15 +123,15 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
@@ -138,8 +139,12 @@ class Lexer:
                 TT.REAL, float(result), self.line, self.pos - (len(result) + 1)
             )
 
+        try:
+            value = int(result)
+        except ValueError:
+            self.error(self.INVALID_NUMBER)
         return Token(
-            TT.INTEGER, int(result), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, value, self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
@@ -246,7 +251,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
@@ -303,7 +308,12 @@ class Parser:
         return self.lookahead.token == token
 
     def parse(self):
-        return self.module()
+        try:
+            module = self.module()
+            module.tag_children()
+            return module
+        except RecursionError:
+            raise AmandaError.too_complex(self.filename, self.lookahead.line)
 
     def module(self):
         module = ast.Module()
@@ -1365,9 +1375,19 @@ class Parser:
             return self.consume(TT.MINUS)
 
 
+def read_source(filename) -> str:
+    try:
+        with open(filename, encoding="utf-8") as src_file:
+            return src_file.read()
+    except UnicodeDecodeError as e:
+        line = e.object.count(b"\n", 0, e.start) + 1
+        raise AmandaError.common_error(
+            filename,
+            "O ficheiro contém dados que não são texto codificado em UTF-8",
+            line,
+        )
+
+
 def parse(filename):
-    with open(filename, encoding="utf-8") as src_file:
-        src = StringIO(src_file.read())
-    module = Parser(filename, src).parse()
-    module.tag_children()
-    return module
+    src = StringIO(read_source(filename))
+    return Parser(filename, src).parse()
-- 
2.43.0


From 74361c5e2843756ce62816be9379348527816a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 20/57] fix: diagnose programs too complex to check or compile
 and calls with missing arguments

---
 amanda/compiler/check/core.py | 26 +++++++++++++++++---------
 amanda/compiler/codegen.py    |  5 ++++-
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c08cb3e..1ef712a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -157,13 +157,13 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
@@ -332,9 +332,14 @@ class Analyzer(ast.Visitor):
         self.validate_builtin_module(node.annotations)
         # Since each function has it's own local scope,
         # The top level global scope will have it's own "locals"
-        self.visit_children(node.children)
-        node.symbols = self.global_scope
-        transformed = transform(node, self.ctx_module)
+        try:
+            self.visit_children(node.children)
+            node.symbols = self.global_scope
+            transformed = transform(node, self.ctx_module)
+        except RecursionError:
+            raise AmandaError.too_complex(
+                self.ctx_module.fpath, self.ctx_node.token.line
+            )
         self.ctx_module.ast = transformed
 
         return self.ctx_module, self.imports
@@ -1247,7 +1252,10 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        is_builtin_fn = sym.name in BUILTINS and not isinstance(
+            sym, symbols.MethodSym
+        )
+        if is_builtin_fn:
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
@@ -1289,7 +1297,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
@@ -1305,9 +1313,9 @@ class Analyzer(ast.Visitor):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1319,9 +1327,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index f072879..c762d7c 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -264,7 +264,10 @@ class ByteGen:
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
 
-        self.compile_block(program)
+        try:
+            self.compile_block(program)
+        except RecursionError:
+            raise AmandaError.too_complex(self.ctx_module.fpath, self.lineno)
         assert self.depth == -1, "A block was not exited in some local scope!"
         # Add halt ops
         self.lineno = 0
-- 
2.43.0


From 2e1f5322f9c867feea173a834983f8a5c429d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 21/57] fix: release long chains of objects without exhausting
 the stack

---
 amanda/vm/src/ama_value.rs      | 46 +++++++++++++++++++++++++++++++++
 amanda/vm/src/lib.rs            | 13 +++++++++-
 amanda/vm/src/values/registo.rs |  4 +++
 amanda/vm/src/vm.rs             |  2 +-
 4 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..d45be2b 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -228,6 +228,52 @@ impl<'a> AmaValue<'a> {
     }
 }
 
+impl<'a> AmaValue<'a> {
+    fn is_object(&self) -> bool {
+        match self {
+            AmaValue::Vector(_) | AmaValue::RegObj(_) | AmaValue::Variant(_, Some(_)) => true,
+            _ => false,
+        }
+    }
+
+    //Moves the objects that only this value refers to into 'pending'
+    fn take_children(&mut self, pending: &mut Vec<AmaValue<'a>>) {
+        match self {
+            AmaValue::Vector(vec) => {
+                if let Some(vec) = Rc::get_mut(vec) {
+                    pending.extend(vec.get_mut().drain(..).filter(|val| val.is_object()));
+                }
+            }
+            AmaValue::RegObj(obj) => {
+                if let Some(obj) = Rc::get_mut(obj) {
+                    pending.extend(obj.get_mut().take_values().filter(|val| val.is_object()));
+                }
+            }
+            AmaValue::Variant(_, Some(items)) => {
+                if let Some(items) = Rc::get_mut(items) {
+                    pending.extend(items.drain(..).filter(|val| val.is_object()));
+                }
+            }
+            _ => (),
+        }
+    }
+}
+
+//Objects can form chains of any length. They are released with a loop because
+//doing it recursively would exhaust the stack.
+impl Drop for AmaValue<'_> {
+    fn drop(&mut self) {
+        if !self.is_object() {
+            return;
+        }
+        let mut pending = Vec::new();
+        self.take_children(&mut pending);
+        while let Some(mut value) = pending.pop() {
+            value.take_children(&mut pending);
+        }
+    }
+}
+
 impl Clone for AmaValue<'_> {
     fn clone(&self) -> Self {
         match self {
diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index d17d4ec..22a6aa2 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -1,6 +1,7 @@
 use alloc::Alloc;
 use std::io;
 use std::io::Write;
+use std::mem::ManuallyDrop;
 use std::slice;
 use vm::AmaVM;
 
@@ -28,8 +29,18 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
     let alloc = Alloc::new();
     let (main_module, imports) = binload::load_bin(module);
 
+    //The values of the globals refer to the modules that hold them. They are released
+    //before the modules, which stay in memory until the process ends.
+    let (main_module, imports) = (ManuallyDrop::new(main_module), ManuallyDrop::new(imports));
+
     let mut vm = AmaVM::new(&main_module, &imports, alloc);
-    if let Err(err) = vm.run(&main_module) {
+    let result = vm.run(&main_module);
+    drop(vm);
+    for module in imports.iter().chain(std::iter::once(&*main_module)) {
+        module.globals.borrow_mut().clear();
+    }
+
+    if let Err(err) = result {
         //There is nowhere left to report that the error output is not available
         let _ = write!(io::stderr(), "{}", err);
         ERR
diff --git a/amanda/vm/src/values/registo.rs b/amanda/vm/src/values/registo.rs
index 3c44303..d94a48c 100644
--- a/amanda/vm/src/values/registo.rs
+++ b/amanda/vm/src/values/registo.rs
@@ -54,6 +54,10 @@ impl<'a> RegObj<'a> {
         self.state.insert(field, value);
     }
 
+    pub fn take_values(&mut self) -> impl Iterator<Item = AmaValue<'a>> + '_ {
+        self.state.drain().map(|(_, value)| value)
+    }
+
     pub fn reg_name(&self) -> &str {
         self.registo.name
     }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 6691f60..2069692 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -488,7 +488,7 @@ impl<'a> AmaVM<'a> {
                     self.sp = (start - 1) as isize;
                     let object = self.op_pop();
                     match object {
-                        AmaValue::Variant(_, Some(args)) => {
+                        AmaValue::Variant(_, Some(ref args)) => {
                             for (i, local_idx) in local_indices.iter().enumerate() {
                                 let idx = self.frames.peek().bp as usize + *local_idx as usize;
                                 self.values[idx] = args[i].clone();
-- 
2.43.0


From 6b8a1750b3880f5c9464696446398d71e56eca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 22/57] fix: support long vectors and format strings and
 diagnose operands out of range

---
 amanda/compiler/codegen.py | 13 +++++++------
 amanda/vm/src/vm.rs        |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index c762d7c..808dad2 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -87,12 +87,10 @@ class OpCode(Enum):
     # 0 (cast): Performs the cast as long as the builtin type can be cast into type.
     # 1 (check cast): Validates if 'interface' type can be cast into the desired type.
     CAST = auto()
-    # Builds a string using elements on the stack. 8-bit arg indicates the number of elements
+    # Builds a string using elements on the stack. 16-bit arg indicates the number of elements
     # on the stack to use
     BUILD_STR = auto()
-    # Builds a vec using elements on the stack. 8-bit arg indicates the number of elements
-    # on the stack to use.
-    # Builds a vec using elements on the stack. 8-bit arg indicates the number of elements
+    # Builds a vec using elements on the stack. 16-bit arg indicates the number of elements
     # on the stack to use.
     BUILD_VEC = auto()
     # Loads a record definition. 16 bit-arg indicates the index of the reg definition.
@@ -139,8 +137,6 @@ class OpCode(Enum):
             case (
                 OpCode.CALL_FUNCTION
                 | OpCode.CAST
-                | OpCode.BUILD_STR
-                | OpCode.BUILD_VEC
                 | OpCode.BUILD_OBJ
                 | OpCode.OP_UNWRAP
                 | OpCode.BUILD_VARIANT
@@ -155,6 +151,8 @@ class OpCode(Enum):
                 | OpCode.GET_GLOBAL
                 | OpCode.SET_GLOBAL
                 | OpCode.LOAD_REGISTO
+                | OpCode.BUILD_STR
+                | OpCode.BUILD_VEC
             ):
                 return OP_SIZE * 3
             case OpCode.JUMP | OpCode.JUMP_IF_FALSE | OpCode.MATCH_VARIANT:
@@ -313,6 +311,9 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
+        arg_size = op.op_size() - OP_SIZE
+        if arg_size in (8, 16) and args[0] >= 2**arg_size:
+            raise AmandaError.too_complex(self.ctx_module.fpath, self.lineno)
         if self.src_map and self.src_map[-1][2] == self.lineno:
             self.src_map[-1][1] = self.ip
         else:
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 2069692..6863303 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -415,7 +415,7 @@ impl<'a> AmaVM<'a> {
                     continue;
                 }
                 OpCode::BuildStr => {
-                    let num_parts = self.get_byte() as isize;
+                    let num_parts = self.get_u16_arg() as isize;
                     let start = (self.sp - (num_parts - 1)) as usize;
                     let mut built_str = String::new();
                     for i in start..=self.sp as usize {
@@ -427,7 +427,7 @@ impl<'a> AmaVM<'a> {
                     self.op_push(AmaValue::Str(Cow::Owned(built_str)));
                 }
                 OpCode::BuildVec => {
-                    let args = self.get_byte() as isize;
+                    let args = self.get_u16_arg() as isize;
                     if args == 0 {
                         let alloc_ref =self.alloc_ref(Vec::new());
                         self.op_push(AmaValue::Vector(alloc_ref));
-- 
2.43.0


From a16f8039c3adb4a36d64610550810d1283961446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 23/57] fix: write the debug listing as UTF-8 and report when
 it cannot be written

---
 amanda/__main__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index a723d8d..85340f0 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -15,8 +15,11 @@ from amanda.libamanda import run_module
 
 
 def write_file(name, code):
-    with open(name, "w") as output:
-        output.write(code)
+    try:
+        with open(name, "w", encoding="utf-8") as output:
+            output.write(code)
+    except OSError as e:
+        sys.exit(f"Não foi possível escrever o ficheiro '{name}': {e.strerror}")
 
 
 def run_frontend(filename) -> tuple:
-- 
2.43.0


From 1320215e59addd5538d1ddafee5896e0532f8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 24/57] fix: quebra and continua inside para control the para
 loop

---
 amanda/compiler/check/core.py |  6 ++++++
 amanda/compiler/codegen.py    | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 1ef712a..2a14afe 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1199,8 +1199,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 808dad2..ce1e100 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -753,7 +753,16 @@ class ByteGen:
         control_var = scope.resolve(para_expr.name.lexeme)
         # BEGIN LOOP
         after_loop = self.new_label()
+        # Set the current loop exit
+        loop_exit_state = self.ctx_loop_exit
+        self.ctx_loop_exit = after_loop
+
         loop = self.new_label()
+        update = self.new_label()
+        # The next iteration starts by updating the control variable
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_start = update
+
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -770,6 +779,7 @@ class ByteGen:
         # Body
         self.gen_statements(block.children)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -783,6 +793,11 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        # Restore old loop start
+        self.ctx_loop_start = loop_start_state
+        # Restore old loop exit
+        self.ctx_loop_exit = loop_exit_state
+
     def gen_iguala(self, node: ast.Iguala):
         if node.store_target:
             self.gen(node.target)
-- 
2.43.0


From 833d6865e3f11f8eced9043c6dc7473c2da17c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 25/57] fix: vec() accepts only element types that have an
 initial value

---
 amanda/compiler/check/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 2a14afe..1fd6700 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1310,8 +1310,13 @@ class Analyzer(ast.Visitor):
 
             type_node = cast(ast.Type, node.fargs[0])
             el_type = self.get_type(type_node)  # Attempt to get type
-            # Is arg 1 a vector type?
-            if type(el_type) == Vector:
+            # Only simple types have a value to fill the vector with
+            if el_type not in (
+                Builtins.Int,
+                Builtins.Real,
+                Builtins.Bool,
+                Builtins.Texto,
+            ):
                 self.error(f"O tipo de um vector deve ser um tipo simples")
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
-- 
2.43.0


From e370f874498a63d915d142efa5c9d7c7dc47c75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 26/57] fix: bind generic type arguments and list missing
 patterns in source order

---
 amanda/compiler/check/checker.py        |  4 ++--
 amanda/compiler/check/core.py           | 17 ++++++-----------
 amanda/compiler/check/exhaustiveness.py |  6 +++---
 amanda/compiler/types/core.py           | 10 +++++-----
 4 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..ab567d6 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -16,11 +16,11 @@ class Checker(Protocol):
     ctx_module: Module
     scope_depth: int
 
-    def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def get_generic_params(self, node: ASTNode) -> list[TypeVar]: ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope: ...
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope: ...
     def define_symbol(
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 1fd6700..39da3f5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -703,21 +703,16 @@ class Analyzer(ast.Visitor):
 
     def get_generic_params(
         self, node: ast.Registo | ast.MethodDecl
-    ) -> set[TypeVar]:
+    ) -> list[TypeVar]:
         # TODO: Notify in case of duplicate generic param
         # TODO: Make sure to throw an error for unused generic params
-        return (
-            set(
-                map(
-                    lambda t: TypeVar(t.name.lexeme, self.ctx_module),
-                    node.generic_params,
-                )
-            )
-            if node.generic_params
-            else set()
+        # Type arguments are bound in the order of the params
+        names = dict.fromkeys(
+            param.name.lexeme for param in node.generic_params or []
         )
+        return [TypeVar(name, self.ctx_module) for name in names]
 
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope:
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope:
         ctx = symbols.Scope(self.ty_ctx)
         for param in params:
             ctx.define(param.name, param)
diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 6ef0058..fed50cd 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -173,7 +173,7 @@ class Match:
     diagnostics: Diagnostics
 
     def missing_patterns(self) -> list[str]:
-        names = set()
+        names: dict[str, None] = {}
         steps = []
 
         self.add_missing_patterns(self.tree, steps, names)
@@ -184,7 +184,7 @@ class Match:
         self,
         node: Decision | None,
         terms: list[Term],
-        missing: set[str],
+        missing: dict[str, None],
     ):
         match node:
             case DSuccess():
@@ -208,7 +208,7 @@ class Match:
                     mapping[id(step.variable)] = index
 
                 name = terms[0].pattern_name(terms, mapping) if terms else "_"
-                missing.add(name)
+                missing[name] = None
             case DGuard(failure=fallback):
                 self.add_missing_patterns(fallback, terms, missing)
             case DSwitch(variable=var, cases=cases, fallback=fallback):
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..960ef11 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -336,13 +336,13 @@ class Registo(Type):
         name: str,
         module: Module,
         fields: dict[str, VariableSymbol],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.fields = fields
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def is_callable(self) -> bool:
@@ -459,20 +459,20 @@ class Uniao(Type):
     name: str
     module: Module
     variants: dict[str, Variant]
-    ty_params: set[TypeVar]
+    ty_params: list[TypeVar]
 
     def __init__(
         self,
         name: str,
         module: Module,
         variants: dict[str, Variant],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.variants = variants
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def add_variant(self, name: str, params: list[Type]):
-- 
2.43.0


From d854c9b85a2e43684e7347a49bd93b4b4553689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 27/57] fix: types of different modules with the same name are
 different types

---
 amanda/compiler/types/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 960ef11..d7fab72 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -407,7 +407,11 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        return (
+            isinstance(other, Registo)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -532,7 +536,11 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        return (
+            isinstance(other, Uniao)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 7c61922c5d7728276fc2452131fed89c50a2252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 28/57] fix: the names bound by a pattern belong to the module
 of the iguala

---
 amanda/compiler/check/exhaustiveness.py | 12 ++++++------
 amanda/compiler/check/iguala.py         |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index fed50cd..9e15d7b 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -232,21 +232,21 @@ class Match:
                 if node := fallback:
                     self.add_missing_patterns(node, terms, missing)
 
-    def declare_block_symbols(self):
-        self._declare_block_symbols(self.tree)
+    def declare_block_symbols(self, module: Module):
+        self._declare_block_symbols(self.tree, module)
 
-    def _declare_block_symbols(self, tree: Decision):
+    def _declare_block_symbols(self, tree: Decision, module: Module):
         match tree:
             case DSuccess(body):
                 for name, var in body.bindings:
-                    binding = VariableSymbol(name, var.type, var.module)
+                    binding = VariableSymbol(name, var.type, module)
                     binding.out_id = unique_id()
                     unwrap(body.value.symbols).define(name, binding)
             case DSwitch(cases=cases, fallback=fallback):
                 for case in cases:
-                    self._declare_block_symbols(case.body)
+                    self._declare_block_symbols(case.body, module)
                 if fallback:
-                    self._declare_block_symbols(fallback)
+                    self._declare_block_symbols(fallback, module)
             case _:
                 pass
 
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 9ec4505..6a70ef4 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -60,7 +60,7 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
     # Validate reachable blocks
-    tree.declare_block_symbols()
+    tree.declare_block_symbols(checker.ctx_module)
     first_block = tree.diagnostics.reachable[0]
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
-- 
2.43.0


From 2223d68d7a858dcbc1108f7b7fd7b973076ddc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 29/57] fix: only a variable itself is a reference to the
 variable being declared

---
 amanda/compiler/check/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 39da3f5..286dd95 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -526,7 +526,10 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
+            if (
+                isinstance(assign.right, ast.Variable)
+                and assign.right.token.lexeme == name
+            ):
                 self.error(
                     f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
                 )
-- 
2.43.0


From 5908f108a7a11e711f483a75134f0eb59069dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 30/57] fix: a module is not a value

---
 amanda/compiler/check/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 286dd95..41f8b71 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -855,6 +855,13 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        elif isinstance(sym.type, ModuleTy) and not (
+            isinstance(node.parent, ast.Get)
+            or (isinstance(node.parent, ast.Assign) and node.parent.left is node)
+        ):
+            # A module is not a value, only its items are
+            self.ctx_node = node
+            self.error(self.INVALID_REF, name=name)
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
-- 
2.43.0


From e3b4e15d477cb427411cbb28d952a37d23671354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 31/57] fix: diagnose vec() of what is not a type or with too
 many sizes

---
 amanda/compiler/check/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 41f8b71..3d694bf 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1298,9 +1298,10 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            if len(node.fargs) >= 256:
+                self.error(
+                    f"Função 'vec' não pode ser invocada com mais de 255 argumentos"
+                )
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
@@ -1313,7 +1314,9 @@ class Analyzer(ast.Visitor):
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
 
-            type_node = cast(ast.Type, node.fargs[0])
+            type_node = node.fargs[0]
+            if not isinstance(type_node, (ast.Variable, ast.Type)):
+                self.error(f"O tipo de um vector deve ser um tipo simples")
             el_type = self.get_type(type_node)  # Attempt to get type
             # Only simple types have a value to fill the vector with
             if el_type not in (
-- 
2.43.0


From ca317c59e15ebcd7dd135f3170a52cc0fbaa9e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 32/57] fix: an item may be imported through more than one path

---
 amanda/compiler/check/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 3d694bf..309dd86 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -379,6 +379,9 @@ class Analyzer(ast.Visitor):
                     f"Erro ao importar módulo. O item '{item}' não foi declarado no módulo '{imported_mod.fpath}'"
                 )
             self.ctx_module = prev_module
+            # The item may already be visible through another import
+            if self.global_scope.get(item) is sym:
+                continue
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
-- 
2.43.0


From d092533d8de5a0eca0431f260c144b745c59856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 33/57] fix: a type path that does not start with a module is
 diagnosed

---
 amanda/compiler/check/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 309dd86..e791244 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -212,11 +212,12 @@ class Analyzer(ast.Visitor):
 
     def get_mod_or_err(self, scope: symbols.Scope, mod_id: str) -> ModuleTy:
         mod = scope.resolve_typed(mod_id)
-        if not mod or not isinstance(mod.type, ModuleTy):
+        mod_ty = getattr(mod, "type", None)
+        if not isinstance(mod_ty, ModuleTy):
             self.error(
                 f"Especificação de tipo inválida. O identificador '{mod_id}' não foi reconhecido como um módulo"
             )
-        return mod.type
+        return mod_ty
 
     def construct_ty(self, type_node: ast.Type, type_symbol: Type) -> Type:
         if type_node.maybe_ty:
-- 
2.43.0


From 574d9b954db3035e2cb541677753c4ee90bc9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 34/57] fix: report the line of the pattern that has the wrong
 type

---
 amanda/compiler/check/iguala.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 6a70ef4..e12498e 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -135,7 +135,8 @@ def check_pattern(
         case _:
             tycheck.unreachable("Unhandled pattern type")
     if pattern.eval_type != target_ty:
-        checker.error(
+        checker.error_with_loc(
+            pattern.token,
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
             received=pattern.eval_type,
-- 
2.43.0


From 4e38f79bebbd0cb4e9e42946462aace1a9504244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 35/57] fix: a method or a variant with arguments is not a
 value and only options take plain values

---
 amanda/compiler/check/core.py | 27 ++++++++++-----------------
 amanda/compiler/types/core.py |  6 ++----
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index e791244..d19f3c8 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -871,6 +871,9 @@ class Analyzer(ast.Visitor):
         assert node.var_symbol
         return sym
 
+    def is_callee(self, node: ast.ASTNode) -> bool:
+        return isinstance(node.parent, ast.Call) and node.parent.callee is node
+
     def visit_path(self, node: ast.Path):
         components = node.components
         name = components[0].token.lexeme
@@ -894,10 +897,10 @@ class Analyzer(ast.Visitor):
                         f"O item '{current_sym.name}' não possui sub-itens"
                     )
 
-        # If variant not referenced in the context of a call
+        # If variant is not what is being called
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not self.is_callee(node)
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -939,19 +942,9 @@ class Analyzer(ast.Visitor):
             return
         # TODO: Add specific node for method call
         # Check if valid use of get
-        # References to methods can only be used in the context of
+        # References to methods can only be used as the callee of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not node.child_of(ast.Call)
-            and not field_sym.can_evaluate()
-        ):
+        if not self.is_callee(node) and not field_sym.can_evaluate():
             self.error(self.INVALID_REF, name=field_sym.name)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
@@ -1147,7 +1140,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1160,7 +1153,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type not in (Builtins.Int, Builtins.Texto):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1185,7 +1178,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index d7fab72..d3483db 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -637,10 +637,8 @@ class ConstructedTy(Type):
         )
 
     def promotion_from(self, other: Type) -> Type | None:
-        # If not of type Talvez, return
-        if not isinstance(other, Primitive) and self.generic_ty.name != str(
-            Types.TOpcao
-        ):
+        # If not of type Opcao, return
+        if not self._is_opcao():
             return None
 
         inner_ty = self.bound_ty_args["T"]
-- 
2.43.0


From 1135a5dd4a883e69f0485d3b9a22b789eb89b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 36/57] fix: diagnose files with too many constants or names

---
 amanda/compiler/codegen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index ce1e100..b6f2087 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -478,9 +478,12 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        if idx >= (2**16) - 1:
+            raise AmandaError.common_error(
+                self.ctx_module.fpath,
+                "O ficheiro tem demasiadas constantes ou demasiados nomes",
+                max(self.lineno, 1),
+            )
         return idx
 
     def gen_constant(self, node: ast.Constant):
-- 
2.43.0


From 55fdad6445421a5d6bbd22b4e6ee9cc21c35772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 37/57] fix: names given to compiler temporaries do not depend
 on earlier compilations

---
 amanda/compiler/check/exhaustiveness.py |  7 ++++---
 amanda/compiler/symbols/core.py         | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 9e15d7b..6fb4568 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -9,7 +9,7 @@ from dataclasses import dataclass
 from amanda.compiler.check.checker import Checker
 from amanda.compiler.module import Module
 from amanda.compiler.symbols.base import Constructor, Type
-from amanda.compiler.symbols.core import Scope, VariableSymbol, unique_id
+from amanda.compiler.symbols.core import Scope, VariableSymbol
 from amanda.compiler.types.builtins import Builtins
 import amanda.compiler.ast as ast
 import amanda.compiler.tokens as tokens
@@ -239,9 +239,10 @@ class Match:
         match tree:
             case DSuccess(body):
                 for name, var in body.bindings:
+                    scope = unwrap(body.value.symbols)
                     binding = VariableSymbol(name, var.type, module)
-                    binding.out_id = unique_id()
-                    unwrap(body.value.symbols).define(name, binding)
+                    binding.out_id = scope.unique_id()
+                    scope.define(name, binding)
             case DSwitch(cases=cases, fallback=fallback):
                 for case in cases:
                     self._declare_block_symbols(case.body, module)
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 33c7b3f..bc0eeac 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -1,20 +1,10 @@
 from __future__ import annotations
-import itertools
 from dataclasses import dataclass
 from typing import Optional, Dict, cast, Any
 from amanda.compiler.module import Module
 from amanda.compiler.symbols.base import Symbol, TypeVar, Typed, Type
 
 
-_unique_ids = itertools.count()
-
-
-# Id of a local generated by the compiler. Must not clash with any other local
-# of a function, regardless of the scopes they are declared in.
-def unique_id() -> str:
-    return f"_u{next(_unique_ids)}_"
-
-
 @dataclass
 class VariableSymbol(Typed):
     name: str
@@ -131,6 +121,16 @@ class Scope:
         # Field is set only on the first scope of a scope
         # Nesting
         self.locals = {}
+        # The same for all the scopes of a nesting
+        self.unique_count: int = 0
+
+    # Id of a local generated by the compiler. Must not clash with any other local
+    # of a function, regardless of the scopes they are declared in.
+    def unique_id(self) -> str:
+        if self.enclosing_scope is not None:
+            return self.enclosing_scope.unique_id()
+        self.unique_count += 1
+        return f"_u{self.unique_count}_"
 
     def resolve(self, name: str) -> Optional[Symbol]:
         symbol = self.get(name)
@@ -177,7 +177,7 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(unique_id(), type, module)
+        symbol = VariableSymbol(self.unique_id(), type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From 706a31c0e40d4d3f9a30daaa6f6e4e6960e619f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 38/57] fix: an escape sequence in a text is read once

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index b697ff8..39e7bae 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -169,10 +169,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From 19b583e1a5c65fd9447331bcc43531994591945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 39/57] fix: a variant pattern has as many sub-patterns as the
 variant has values

---
 amanda/compiler/check/iguala.py | 8 ++++++++
 amanda/compiler/error.py        | 1 +
 2 files changed, 9 insertions(+)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index e12498e..f83a7a1 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -117,6 +117,14 @@ def check_pattern(
                             Errors.VARIANT_TAKES_NO_ARGS,
                             variant=sym.qualified_name(),
                         )
+                    if args and len(args) != len(params):
+                        checker.error_with_loc(
+                            pattern.token,
+                            Errors.VARIANT_PATTERN_ARITY,
+                            variant=sym.qualified_name(),
+                            expected=len(params),
+                            received=len(args),
+                        )
                     for sub_pattern, ty in zip(args, params):
                         check_pattern(checker, arm, sub_pattern, ty)
                 case _:
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 85044cd..f1c1dc5 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -10,6 +10,7 @@ class Errors:
     VARIANT_ALREADY_DECLARED = "A variante '{variant}' já foi declarada anteriormente na união '{uniao}'"
     VOID_FN_MATCH_TARGET = "Funções sem retorno não podem ser usadas como o alvo da instrução 'iguala'"
     VARIANT_TAKES_NO_ARGS = "Padrão inválido. A variante '{variant}' não espera receber nenhum argumento"
+    VARIANT_PATTERN_ARITY = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), porém recebeu {received}"
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
-- 
2.43.0


From be178654fd9607a6158704e44f0b93037f91c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 40/57] fix: diagnose an integer pattern that is out of range

---
 amanda/compiler/check/iguala.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index f83a7a1..3293eff 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -133,7 +133,8 @@ def check_pattern(
             pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
-        case ast.IntPattern():
+        case ast.IntPattern(val):
+            checker.visit(ast.Constant(val))
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
-- 
2.43.0


From 6554a1de612f5e85c6325c502f8e97403aea880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 41/57] fix: the initial value of a variable may not use the
 variable

---
 amanda/compiler/check/core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d19f3c8..3cc7116 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -61,6 +61,8 @@ class Analyzer(ast.Visitor):
         self.ctx_func = None
         self.ctx_yield_block: ast.YieldBlock | None = None
         self.in_loop = False
+        # Variables whose initial values are being checked
+        self.declaring: list[tuple[symbols.VariableSymbol, ast.Variable]] = []
         # Modules loaded so far, each one after the modules that it imports
         self.imports: dict[str, Module] = {} if imports is None else imports
         if imports is None:
@@ -530,14 +532,9 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if (
-                isinstance(assign.right, ast.Variable)
-                and assign.right.token.lexeme == name
-            ):
-                self.error(
-                    f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
-                )
+            self.declaring.append((symbol, assign.left))
             self.visit(assign)
+            self.declaring.pop()
         if self.scope_depth == 0:
             symbol.is_global = True
 
@@ -859,6 +856,14 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        elif any(
+            sym is symbol and node is not target
+            for symbol, target in self.declaring
+        ):
+            self.ctx_node = node
+            self.error(
+                f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
+            )
         elif isinstance(sym.type, ModuleTy) and not (
             isinstance(node.parent, ast.Get)
             or (isinstance(node.parent, ast.Assign) and node.parent.left is node)
-- 
2.43.0


From a2910d870f6b0d26096eb8b5c924d20940ea547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 42/57] fix: report the line of the field whose type is unknown

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 3cc7116..81bb261 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -745,7 +745,7 @@ class Analyzer(ast.Visitor):
         self.enter_scope(reg_scope)
 
         for field in node.fields:
-            self.visit_vardecl(field)
+            self.visit(field)
 
         for symbol in cast(symbols.Scope, self.ctx_scope).symbols.values():
             symbol.is_property = True
-- 
2.43.0


From 833dffde9a218fd848c825f7ff0cf6139dc7cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 43/57] fix: a list of one element may end on a line of its own

---
 amanda/compiler/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 39e7bae..2e90a22 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1306,6 +1306,7 @@ class Parser:
             if not self.match(TT.RBRACKET):
                 self.skip_newlines()
                 elements.append(self.equality())
+                self.skip_newlines()
                 while not self.match(TT.RBRACKET):
                     self.consume(TT.COMMA, skip_newlines=True)
                     self.skip_newlines()
-- 
2.43.0


From e4faf701c3b88a8d8f65023bf1227efb7ba38ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 44/57] fix: nothing may follow the expression of a format
 string

---
 amanda/compiler/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 2e90a22..6e13ccd 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1209,6 +1209,11 @@ class Parser:
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            self.skip_newlines()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    f"era esperado o símbolo '}}',porém recebeu o símbolo '{self.lookahead.lexeme}'"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
-- 
2.43.0


From 6407178664a263dfc95ea31fe1e460d7e3827bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 45/57] fix: compare options and references to registos at run
 time and refuse what cannot be compared

---
 amanda/compiler/types/core.py | 20 +++++++++++++-------
 amanda/vm/src/ama_value.rs    | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index d3483db..6cb6561 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -369,10 +369,8 @@ class Registo(Type):
     def binop(self, op: TT, rhs: Type) -> Type | None:
         from amanda.compiler.types.builtins import Builtins
 
-        match (self, op, rhs):
-            case [_, (TT.DOUBLEEQUAL | TT.NOTEQUAL), Registo()]:
-                return Builtins.Bool
-            case [Registo(name="Opcao"), (TT.DOUBLEEQUAL | TT.NOTEQUAL), _]:
+        match op:
+            case TT.DOUBLEEQUAL | TT.NOTEQUAL if self == rhs:
                 return Builtins.Bool
             case _:
                 return None
@@ -632,9 +630,17 @@ class ConstructedTy(Type):
         return other if other.tag in (Types.TINDEF,) else None
 
     def binop(self, op: TT, rhs: Type) -> Type | None:
-        return self.generic_ty.binop(
-            op, rhs.generic_ty if isinstance(rhs, ConstructedTy) else rhs
-        )
+        from amanda.compiler.types.builtins import Builtins
+
+        if not self._is_opcao() or op not in (TT.DOUBLEEQUAL, TT.NOTEQUAL):
+            return None
+        if rhs == Builtins.Nulo:
+            return Builtins.Bool
+        # What options can be compared with depends on the values they hold
+        inner_ty = self.bound_ty_args["T"]
+        if isinstance(rhs, ConstructedTy) and rhs._is_opcao():
+            rhs = rhs.bound_ty_args["T"]
+        return inner_ty.binop(op, rhs)
 
     def promotion_from(self, other: Type) -> Type | None:
         # If not of type Opcao, return
diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index d45be2b..49c0b72 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -176,6 +176,19 @@ impl<'a> AmaValue<'a> {
     }
 
     pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
+        if let OpCode::OpEq | OpCode::OpNotEq = op {
+            let equal = match (left, right) {
+                (AmaValue::None, _) | (_, AmaValue::None) => {
+                    Some(left.is_none() && right.is_none())
+                }
+                //Two references to a registo are equal if they refer to the same object
+                (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Some(Rc::ptr_eq(left, right)),
+                _ => None,
+            };
+            if let Some(equal) = equal {
+                return Ok(AmaValue::Bool(equal == matches!(op, OpCode::OpEq)));
+            }
+        }
         let res_type = if left.is_float() || right.is_float() {
             Type::Real
         } else if left.is_int() && right.is_int() {
@@ -184,8 +197,6 @@ impl<'a> AmaValue<'a> {
             Type::Bool
         } else if left.is_str() && right.is_str() {
             Type::Texto
-        } else if left.is_none() && right.is_str() {
-            Type::Texto
         } else {
             unimplemented!("Error is not implemented")
         };
-- 
2.43.0


From fb575e0f22c699727e3b605906c767a0476b7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 46/57] fix: a value of type indef cannot be compared

---
 amanda/compiler/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/ops.py b/amanda/compiler/ops.py
index 909aedb..a93a960 100644
--- a/amanda/compiler/ops.py
+++ b/amanda/compiler/ops.py
@@ -11,7 +11,7 @@ def primitive_binop(lhs_type: Primitive, op: TT, rhs_type: Type) -> Type | None:
     # Get result type of a binary operation based on
     # on operator and operand type
 
-    if not rhs_type.is_operable():
+    if not lhs_type.is_operable() or not rhs_type.is_operable():
         return None
 
     if not isinstance(rhs_type, Primitive):
-- 
2.43.0


From afa4ce026a5eb912867e88c0405d251667c1373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 47/57] fix: the integer division of reals gives a real

---
 amanda/vm/src/ama_value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 49c0b72..3e0c545 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -219,10 +219,11 @@ impl<'a> AmaValue<'a> {
                 }
             }
             OpCode::OpFloorDiv => {
-                if right.take_int() == 0 {
+                if right.take_float() == 0.0 {
                     Err("não pode dividir um número por zero")
+                } else if let Type::Real = res_type {
+                    Ok(AmaValue::F64((left.take_float() / right.take_float()).trunc()))
                 } else {
-                    let res_type = Type::Int;
                     arith_ops!(res_type, left, /, checked_div, right)
                 }
             }
-- 
2.43.0


From 7273cd9d2a005663c78ab9f2cf0eefb59906f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 48/57] fix: the value of an option cannot be assigned

---
 amanda/compiler/check/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 81bb261..d12f94d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -965,6 +965,8 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
             )
+        if target.target.eval_type.is_constructed_from(SrcBuiltins.Opcao):
+            self.error("O valor de uma opção não pode ser modificado")
         self.visit(expr)
         expr.prom_type = expr.eval_type.promote_to(target.eval_type)
         if not self.types_match(target.eval_type, expr.eval_type):
-- 
2.43.0


From bb7493e12d180adb0a764c8710cf34e4c8e0237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 49/57] fix: the arguments of a variant cannot be named

---
 amanda/compiler/check/uniao.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index dbf9dbe..f3e6bf4 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -53,6 +53,11 @@ def validate_variant_init(
 
     # 2. Validate if all arg order match param order
     for arg in args:
+        if arg.of_type(ast.NamedArg):
+            checker.ctx_node = arg
+            checker.error(
+                "Os argumentos de uma variante não podem ser nomeados"
+            )
         checker.visit(arg)
     for i, (arg, param) in enumerate(zip(args, variant.params)):
         arg.prom_type = arg.eval_type.promote_to(param)
-- 
2.43.0


From 75859133bf03ebc6fba2f74a7b344e71e6280425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 50/57] fix: consecutive assignments to elements and fields
 keep their value

An assignment leaves no value on the stack, so the next target took
whatever was below it (or the previous value of a variable), and the
runtime panicked when nothing was.
---
 amanda/compiler/codegen.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index b6f2087..bebe709 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -582,17 +582,23 @@ class ByteGen:
             symbol.out_id, len(self.func_locals)
         )
 
-    # TODO: Test whether chained assign still with
-    # mixture of normal assigns and index set (Potential bug)
-    def gen_assign(self, node):
-        expr = node.right
+    def gen_assigned_value(self, node: ast.ASTNode, expr: ast.Expr):
         self.gen(expr)
-        # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+        # The value of consecutive assignments is kept for the next target
+        if not self.leaves_value(expr):
+            self.append_op(OpCode.GET_LOCAL, self.assigned_slot())
             self.gen_auto_cast(expr.prom_type)
+        if isinstance(node.parent, (ast.Assign, ast.Set, ast.IndexSet)):
+            self.append_op(OpCode.SET_LOCAL, self.assigned_slot())
+            self.append_op(OpCode.GET_LOCAL, self.assigned_slot())
+
+    def assigned_slot(self) -> int:
+        return self.func_locals.setdefault(
+            "_atribuicao_", len(self.func_locals)
+        )
+
+    def gen_assign(self, node):
+        self.gen_assigned_value(node, node.right)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -996,7 +1002,7 @@ class ByteGen:
 
     def gen_indexset(self, node):
         self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
+        self.gen_assigned_value(node, node.value)
         self.append_op(OpCode.OP_INDEX_SET)
 
     def gen_fmtstr(self, node):
@@ -1028,7 +1034,7 @@ class ByteGen:
 
     def gen_set(self, node: ast.Set):
         self.gen(node.target)
-        self.gen(node.expr)
+        self.gen_assigned_value(node, node.expr)
         self.append_op(OpCode.SET_PROP)
 
     def gen_unwrap(self, node: ast.Unwrap):
-- 
2.43.0


From fe0ddc357c18f33220d914148562d34989cc5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 51/57] fix: an int given to an option of real is promoted

The value of the option is a real, but what it held was still an int
(3 was shown instead of 3.0 and // divided integers).
---
 amanda/compiler/codegen.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index bebe709..1c09e78 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -12,7 +12,7 @@ from amanda.compiler.check.exhaustiveness import (
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
-from amanda.compiler.types.builtins import Builtins
+from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 from amanda.compiler.types.core import (
     IntCons,
     Primitive,
@@ -425,7 +425,7 @@ class ByteGen:
         else:
             result = gen_method(node)
         if self.leaves_value(node):
-            self.gen_auto_cast(node.prom_type)
+            self.gen_auto_cast(node)
         # What is left of the enclosing node belongs to its own line
         self.lineno = prev_lineno
         return result
@@ -587,7 +587,7 @@ class ByteGen:
         # The value of consecutive assignments is kept for the next target
         if not self.leaves_value(expr):
             self.append_op(OpCode.GET_LOCAL, self.assigned_slot())
-            self.gen_auto_cast(expr.prom_type)
+            self.gen_auto_cast(expr)
         if isinstance(node.parent, (ast.Assign, ast.Set, ast.IndexSet)):
             self.append_op(OpCode.SET_LOCAL, self.assigned_slot())
             self.append_op(OpCode.GET_LOCAL, self.assigned_slot())
@@ -981,8 +981,17 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
-        if not prom_type or prom_type != Builtins.Real:
+    def held_type(self, ty: Type) -> Type:
+        # The value of an option is held as it is
+        while ty.is_constructed_from(SrcBuiltins.Opcao):
+            ty = ty.bound_ty_args["T"]
+        return ty
+
+    def gen_auto_cast(self, expr: ast.Expr):
+        if not expr.prom_type or expr.eval_type == Builtins.Nulo:
+            return
+        prom_type = self.held_type(expr.prom_type)
+        if prom_type != Builtins.Real or expr.eval_type == prom_type:
             return
         self.load_variable(prom_type)
         self.append_op(OpCode.CAST, 0)
-- 
2.43.0


From 81d144d2564d92d384482c70403712662aa02cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 52/57] fix: converting the value of an indef tells when it is
 an instance
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only builtin values had a type name, so the runtime panicked for
instances of registos and uniões and for nulo.
---
 amanda/vm/src/ama_value.rs | 34 +++++++++++++++++++++++++---------
 amanda/vm/src/vm.rs        |  2 +-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 3e0c545..0c2ba29 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -84,14 +84,27 @@ pub enum AmaValue<'a> {
 }
 
 impl<'a> AmaValue<'a> {
-    pub fn get_type(&self) -> Type {
+    // Instances of types declared by the program do not have a builtin type
+    pub fn get_type(&self) -> Option<Type> {
         match self {
-            AmaValue::Str(_) => Type::Texto,
-            AmaValue::Int(_) => Type::Int,
-            AmaValue::F64(_) => Type::Real,
-            AmaValue::Bool(_) => Type::Bool,
-            AmaValue::Vector(_) => Type::Vector,
-            _ => unimplemented!("Cannot return type for this value: {:?}", self),
+            AmaValue::Str(_) => Some(Type::Texto),
+            AmaValue::Int(_) => Some(Type::Int),
+            AmaValue::F64(_) => Some(Type::Real),
+            AmaValue::Bool(_) => Some(Type::Bool),
+            AmaValue::Vector(_) => Some(Type::Vector),
+            _ => None,
+        }
+    }
+
+    pub fn type_name(&self) -> String {
+        match self {
+            AmaValue::RegObj(reg) => reg.borrow().reg_name().to_string(),
+            AmaValue::Variant(..) => String::from("uniao"),
+            AmaValue::None => String::from("nulo"),
+            _ => match self.get_type() {
+                Some(ty) => ty.name().to_string(),
+                None => unimplemented!("Cannot return type for this value: {:?}", self),
+            },
         }
     }
 
@@ -427,6 +440,9 @@ impl<'a> Hash for AmaValue<'a> {
 }
 
 #[inline]
-pub fn check_cast(val_t: Type, target: Type) -> bool {
-    val_t as u8 == target as u8
+pub fn check_cast(val_t: Option<Type>, target: Type) -> bool {
+    match val_t {
+        Some(ty) => ty as u8 == target as u8,
+        None => false,
+    }
 }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 6863303..1a03da4 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -545,7 +545,7 @@ impl<'a> AmaVM<'a> {
                         if !ama_value::check_cast(val.get_type(), new_type) {
                             return self.panic_and_throw(&format!(
                                 "Conversão inválida. O tipo original do valor é '{}', mas tentou converter o valor para o tipo '{}'",
-                                val.get_type().name(), 
+                                val.type_name(),
                                 new_type.name()
                             ));
                         }
-- 
2.43.0


From d7d49b98f5fa1d540e4dc2ed1fe31a7addaf706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 53/57] fix: conversions to an option convert to the type of
 its value

The checker accepts them, but the option itself is not a type at
runtime, which panicked.
---
 amanda/compiler/codegen.py | 9 ++++++---
 amanda/vm/src/vm.rs        | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 1c09e78..b6035d1 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -86,6 +86,7 @@ class OpCode(Enum):
     # Takes an 8-bit argument that changes the 'strictness' of the conversion.
     # 0 (cast): Performs the cast as long as the builtin type can be cast into type.
     # 1 (check cast): Validates if 'interface' type can be cast into the desired type.
+    # 2 (check cast to option): The same as 1, but 'nulo' is also valid.
     CAST = auto()
     # Builds a string using elements on the stack. 16-bit arg indicates the number of elements
     # on the stack to use
@@ -971,14 +972,16 @@ class ByteGen:
 
     def gen_converta(self, node: ast.Converta):
         target_t = node.target.eval_type
-        new_t = node.eval_type
+        new_t = self.held_type(node.eval_type)
         self.gen(node.target)
         # Converting to same type, can ignore this
         # TODO: Do this in sem analysis
-        if new_t == target_t or new_t == Builtins.Indef:
+        if new_t in (target_t, Builtins.Indef) or target_t == Builtins.Nulo:
             return
         self.load_variable(new_t)
-        arg = 0 if target_t != Builtins.Indef else 1
+        arg = 0
+        if target_t == Builtins.Indef:
+            arg = 1 if new_t == node.eval_type else 2
         self.append_op(OpCode.CAST, arg)
 
     def held_type(self, ty: Type) -> Type:
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 1a03da4..24bf3da 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -541,7 +541,9 @@ impl<'a> AmaVM<'a> {
                             return self.panic_and_throw(&msg);
                         }
                         self.op_push(cast_res.unwrap());
-                    } else if arg == 1 {
+                    } else if arg == 2 && matches!(val, AmaValue::None) {
+                        self.op_push(val);
+                    } else {
                         if !ama_value::check_cast(val.get_type(), new_type) {
                             return self.panic_and_throw(&format!(
                                 "Conversão inválida. O tipo original do valor é '{}', mas tentou converter o valor para o tipo '{}'",
-- 
2.43.0


From 70769693993b8d516cddab8d8aceafe73ed51a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 54/57] fix: a native function without an implementation is
 refused with a diagnosis

---
 amanda/compiler/check/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d12f94d..c3ec449 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -610,11 +610,13 @@ class Analyzer(ast.Visitor):
         )
         symbol.set_annotations(node.annotations)
         scope, _ = self.make_func_symbol(name, node, symbol)
-        # Native functions don't have a body, so there's nothing to visit
         node.symbol = symbol
-        if symbol.is_builtin():
-            return
         if node.is_native:
+            # There is no body to run and nothing that provides one
+            self.ctx_node = node
+            self.error(f"a função nativa '{name}' não possui implementação")
+        # Builtin functions don't have a body, so there's nothing to visit
+        if symbol.is_builtin():
             return
         self.validate_return(
             node,
-- 
2.43.0


From b8e8c6ba2a6664d8cd9c4d316824f1f959a84e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 55/57] fix: modules with quotes in their names or named ama
 can be imported

---
 amanda/compiler/check/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c3ec449..d21b53d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -486,14 +486,14 @@ class Analyzer(ast.Visitor):
         return None
 
     def visit_usa(self, node: ast.Usa):
-        fpath = node.module.lexeme.replace("'", "").replace('"', "")
+        fpath = node.module.lexeme[1:-1]
         # Check if path refers to a valid file
         head, tail = path.split(fpath)
         err_msg = f"Erro ao importar módulo. O caminho '{fpath}' não é um ficheiro válido"
         if not tail:
             self.error(err_msg)
         # If file doesn't have .ama extensions, add it
-        if tail.split(".")[-1] != "ama":
+        if not tail.endswith(".ama"):
             tail = tail + ".ama"
         fpath = path.join(head, tail)
 
-- 
2.43.0


From 6753ae9c2a74a2240dd23bdc31eda17d86f7c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 56/57] fix: variables with the names of types do not change
 the types of numbers

---
 amanda/compiler/check/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d21b53d..96e0a44 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -252,7 +252,7 @@ class Analyzer(ast.Visitor):
 
     def get_type(self, type_node: ast.Type) -> Type:
         if not type_node:
-            return cast(Type, self.ctx_scope.resolve("vazio"))
+            return Builtins.Vazio
         match type_node:
             case ast.Variable():
                 return self.get_type_variable(type_node)  # type: ignore
@@ -814,9 +814,8 @@ class Analyzer(ast.Visitor):
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
-        scope = self.ctx_scope
         if constant == TT.INTEGER:
-            node.eval_type = scope.resolve("int")
+            node.eval_type = Builtins.Int
             int_value = int(node.token.lexeme)
             if int_value > MAX_AMA_INT:
                 self.error(
@@ -1206,7 +1205,7 @@ class Analyzer(ast.Visitor):
         # Define control variable for loop
         name = node.expression.name.lexeme
         sym = symbols.VariableSymbol(
-            name, self.ctx_scope.resolve("int"), self.ctx_module
+            name, Builtins.Int, self.ctx_module
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
-- 
2.43.0


From 2b9b91a5b0453619af07c731cd3689bce0146eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:06 +0000
Subject: [PATCH 57/57] fix: declarations after a function with patterns are
 not taken for the variables of that function

---
 amanda/compiler/codegen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index b6035d1..c10598c 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -185,6 +185,8 @@ class ByteGen:
         self.ama_lineno: int = 1  # tracks lineno in input amanda src
         self.program_symtab: symbols.Scope = None  # type: ignore
         self.scope_symtab: symbols.Scope = None  # type: ignore
+        # Scopes of the blocks around the current one
+        self.outer_scopes: list[symbols.Scope] = []
         self.func_locals: dict[str, int] = {}
         self.const_table: dict[str, int] = {}
         self.uniao_variants: dict[str, int] = {}
@@ -439,12 +441,14 @@ class ByteGen:
 
     def enter_block(self, scope):
         self.depth += 1
+        # The scopes created for patterns are not entered as blocks, so the
+        # enclosing scope is not always the one that is being left
+        self.outer_scopes.append(self.scope_symtab)
         self.scope_symtab = scope
 
     def exit_block(self):
         self.depth -= 1
-        self.scope_symtab = self.scope_symtab.enclosing_scope
-        num_locals = len(self.func_locals)
+        self.scope_symtab = self.outer_scopes.pop()
 
     def gen_statements(self, children):
         for child in children:
-- 
2.43.0


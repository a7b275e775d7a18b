import ast,sys
class D(ast.NodeTransformer):
    def strip(s,n):
        s.generic_visit(n)
        if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
            n.body=n.body[1:] or [ast.Pass()]
        return n
    visit_FunctionDef=visit_ClassDef=visit_AsyncFunctionDef=visit_Module=strip
for f in sys.argv[1:]:
    t=D().visit(ast.parse(open(f).read()))
    print('#####',f); print(ast.unparse(t))

"""lib2to3 fixer: a / b and a /= b become calls of _py2rt.div and _py2rt.idiv.

Not applied to modules that have "from __future__ import division"."""
from lib2to3 import fixer_base, pytree
from lib2to3.fixer_util import Call, Comma, Leaf, Name, Node, parenthesize, syms, token

MODULE = '_py2rt'


def call(func, a, b):
    a, b = a.clone(), b.clone()
    a.prefix, b.prefix = '', ' '
    return Call(Name('__import__("%s").%s' % (MODULE, func)), [a, Comma(), b])


class FixClassicDiv(fixer_base.BaseFix):
    BM_compatible = False
    order = 'post'
    run_order = 9
    PATTERN = "term< any any+ > | expr_stmt< any '/=' any >"

    def start_tree(self, tree, filename):
        super().start_tree(tree, filename)
        self.skip = 'division' in tree.future_features

    def transform(self, node, results):
        if self.skip:
            return None
        kids = node.children
        if node.type == syms.expr_stmt:
            if len(kids) != 3 or kids[1].value != '/=':
                return None
            target, value = kids[0].clone(), kids[2].clone()
            if value.type in (syms.testlist, syms.testlist_star_expr, syms.yield_expr):
                value.prefix = ''
                value = parenthesize(value)
            load = target.clone()
            new = call('idiv', load, value)
            new.prefix = ' '
            out = Node(syms.expr_stmt, [target, Leaf(token.EQUAL, '=', prefix=' '), new])
            out.prefix = node.prefix
            return out
        if not any(k.type == token.SLASH for k in kids):
            return None
        acc = kids[0].clone()
        for op, operand in zip(kids[1::2], kids[2::2]):
            if op.type == token.SLASH:
                # A line break inside the operands stays legal: it is within the call.
                acc = call('div', acc, operand)
            else:
                acc = Node(syms.term, [acc, op.clone(), operand.clone()])
        acc.prefix = kids[0].prefix
        return acc

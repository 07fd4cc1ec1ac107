#!/usr/bin/env python3
"""Drafts harness/props/tables.go from /repo's exported constructors. Names are derived from the documentation
(<name> or "name" in the doc comment) and cross-checked against the function's own name; what needs an exception is
listed below and was reviewed by hand. The table is committed: the checks never regenerate it."""
import re, sys
def funcs(f):
    s = open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^func ([A-Z]\w*)\((.*?)\) (\S+) \{\n(.*?)^\}', s, re.M | re.S):
        yield m[2], m[3], m[1], m[5]
VOID = set("area base br col embed hr img input link meta param source track wbr".split())
EXC = {('svg', 'MarkerHeight'): 'markerHeight', ('svg', 'MarkerWidth'): 'markerWidth', ('html','Aria'): None, ('html','Data'): None}
def kebab(n):
    return re.sub(r'(?<=[a-z])([A-Z])', r'-\1', n.replace('URL', 'Url')).lower()
def plain(n):
    for suf in ('Element', 'Attr'):
        if n.endswith(suf): return n[:-len(suf)]
    return n
out = ['// Code drafted by tools/gentables.py and reviewed by hand; the names are the specification.', '', 'package props', '',
 'import (', '\t"github.com/go-andiamo/aitch"', '\t"github.com/go-andiamo/aitch/css"', '\t"github.com/go-andiamo/aitch/html"', '\t"github.com/go-andiamo/aitch/htmx"', '\t"github.com/go-andiamo/aitch/svg"', ')', '',
 'type elemCtor struct {', '\tname string', '\tvoid bool', '\tfn   func(...any) aitch.Node', '\tgo_  string // as written in Go', '}', '',
 'type attrCtor struct {', '\tname  string', '\tdelim string', '\tfn    func(...any) aitch.Node', '\tgo_   string', '}', '',
 'type boolCtor struct {', '\tname string', '\tfn   func() aitch.Node', '\tgo_  string', '}', '']
for pkg in ('html', 'svg'):
    out.append(f'var {pkg}Elements = []elemCtor{{')
    for n, sig, doc, body in funcs(f'/repo/{pkg}/elements.go'):
        d = re.search(r'<(\w+)>', doc)[1]
        base = plain(n)
        if d.lower() != base.lower() and n != 'Para': print('CHECK', pkg, n, d)
        out.append(f'\t{{"{d}", {"true" if pkg=="html" and d in VOID else "false"}, {pkg}.{n}, "{pkg}.{n}"}},')
    out += ['}', '']
bools = []
for pkg in ('html', 'svg', 'htmx'):
    out.append(f'var {pkg}Attributes = []attrCtor{{')
    for n, sig, doc, body in funcs(f'/repo/{pkg}/attributes.go'):
        if (pkg, n) in EXC and EXC[(pkg, n)] is None or sig not in ('value ...any', ''): continue
        q = re.search(r'"([\w:\-]+)"', doc)
        d = EXC.get((pkg, n)) or q[1]
        base = plain(n).lower()
        ok = d.replace('-', '').replace(':', '').lower() == base or pkg == 'htmx' and d.replace('hx-', '').replace('on:', 'on-').replace('push-url', 'pushurl').replace('-', '') == base
        if not ok: print('CHECK', pkg, n, d)
        if sig == '':
            bools.append(f'\t{{"{d}", {pkg}.{n}, "{pkg}.{n}"}},'); continue
        delim = {'Class': ' ', 'Style': '; ', 'Trigger': ' ', 'Params': ' ', 'Inherit': ' ', 'Disinherit': ' ', 'Vars': ', '}.get(n, '') if (pkg, n) != ('svg', 'Class') else ''
        out.append(f'\t{{"{d}", "{delim}", {pkg}.{n}, "{pkg}.{n}"}},')
    out += ['}', '']
out += ['var boolAttributes = []boolCtor{'] + bools + ['}', '']
out.append('var cssProperties = []attrCtor{')
for n, sig, doc, body in funcs('/repo/css/properties.go'):
    d = {'ZIndex': 'z-index'}.get(n) or kebab(n)
    dd = re.search(r'"([\w:\-]+?):?"', doc) or re.search(r'`([\w\-]+?):?`', doc)
    if dd and dd[1] != d: print('CHECK css', n, d, dd[1])
    out.append(f'\t{{"{d}", "; ", css.{n}, "css.{n}"}},')
out += ['}', '']
open('/verif/harness/props/tables.go', 'w').write('\n'.join(out))

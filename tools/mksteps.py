"""Writes contracts/steps.go: the steps of the statement builders that only hand
on to another step (MATCH is MATCH whatever precedes it).  What the step they
hand on to adds to the statement is the contract of that step."""
import re, glob
src = ''.join(open(f).read() for f in sorted(glob.glob('/repo/*.go')) if not f.endswith('_test.go'))
T = ['DefaultStatementBuilder', 'DefaultStatementWithWithBuilder', 'DefaultStatementWithUpdateBuilder', 'InQueryCallBuilder', 'StandaloneCallBuilder']
CORE = ['MatchDefault', 'Create', 'Merge', 'Delete', 'DetachDelete', 'Set', 'SetByNode', 'RemoveByNode', 'Remove', 'Unwind', 'Call', 'Call1',
        'WithDefault', 'ReturningDefault', 'Where', 'And', 'Or', 'AddWith', 'BuildImpl']
D = 'DefaultStatementBuilder'
W, U, I, S = T[1:]
methods = {}
for m in re.finditer(r'^func \((\w+) (\*?)(\w+)\) (\w+)\((.*?)\) (\S+) \{$', src, re.M):
    rv, ptr, ty, name, params, res = m.groups()
    if ty in T and not ptr: methods[ty, name] = ([p.split() for p in params.split(', ')] if params else [], res)
opaque = [f'{D}.{c}' for c in CORE if (D, c) in methods] + [f'{t}.statementBuilder' for t in T[1:]]
opaque += [f'{U}.{n}' for n in ('Returning', 'ReturningDistinct', 'Set', 'SetByNode', 'RemoveByNode', 'Remove')]
opaque += [f'{t}.{n}' for t in (I, S) for n in ('Where', 'YieldSymbolic')] + [f'{W}.{n}' for n in ('Where', 'And', 'Or')]
hide = ['CreateSymbolicNameByString', 'CreateSymbolicNameByNamed', 'ListOf', 'ASymbolic', 'OperationSetLabel', 'OperationRemove',
           'RelationshipPatternConditionCreate', 'Named.GetRequiredSymbolicName', 'ConditionContainer.Get', 'StandaloneCallBuilderCreate', 'ProcedureNameCreate']
body, via = [], []

def step(ty, name, expr, guard=None, props=None):
    ps, res = methods[ty, name]
    sig = ''.join(f', {p[0]} {"[]" + p[1][3:] if p[1].startswith("...") else p[1]}' for p in ps)
    g = ' || '.join([('b.err != nil' if ty in (D,) or 'base' not in expr else 'base.err != nil')] + ([guard] if guard else []))
    pre = '\tbase := b.statementBuilder()\n' if 'base' in expr else ''
    via.append(f'{ty}.{name}')
    body.append('%s// @ ensures %s.%s\nfunc st_%s_%s(b %s%s, r %s) bool {\n%s\treturn %s || vcSame(r, %s)\n}\n' % (
        f'// @ props {props}\n' if props else '', ty, name, ty, name, ty, sig, res, pre, g, expr))

for ty in T:
    base = 'b' if ty == D else 'base'
    for (t, name), (ps, res) in methods.items():
        if t != ty: continue
        a = [p[0] for p in ps]
        al = a[-1] if a else None
        sym = f'CreateSymbolicNameByString({al}...)'
        nam = f'CreateSymbolicNameByNamed({al}...)'
        es, bad = al, f'specBadExpressions({al})'
        if name.endswith('ByString'): es, bad = sym, f'specBadExpressions({sym})'
        if name.endswith('ByNamed'): es, bad = nam, f'specBadNamed({al}) || specBadExpressions({nam})'
        core = ty == D and name in CORE
        if core: continue
        if f'{ty}.{name}' in opaque: continue
        if name in ('Match', 'OptionalMatch'): step(ty, name, f'{base}.MatchDefault({"true" if name[0] == "O" else "false"}, {al}...)', f'specBadPatterns({al})')
        elif name == 'MatchDefault': step(ty, name, f'{base}.MatchDefault({a[0]}, {al}...)', f'specBadPatterns({al})')
        elif name in ('Create', 'Merge'): step(ty, name, f'{base}.{name}({al}...)', f'specBadPatterns({al})')
        elif m := re.match(r'(Detach)?Delete(ByString|ByNamed)?$', name): step(ty, name, f'{base}.{m.group(1) or ""}Delete({es}...)', bad)
        elif name == 'DeleteDefault': continue
        elif m := re.match(r'With(Distinct)?(ByString|ByNamed)?$', name): step(ty, name, f'{base}.WithDefault({"true" if m.group(1) else "false"}, {es}...)', bad)
        elif name == 'WithDefault': step(ty, name, f'{base}.WithDefault({a[0]}, {al}...)', bad)
        elif m := re.match(r'Returning(Distinct)?(ByString|ByNamed)?$', name):
            if ty == U: step(ty, name, f'b.Returning{m.group(1) or ""}({es}...)', bad)
            else: step(ty, name, f'{base}.ReturningDefault({"true" if m.group(1) else "false"}, {es}...)', bad)
        elif name == 'Set': step(ty, name, f'{base}.Set({al}...)', bad)
        elif name == 'SetWithNamed':
            v, e = a
            b0 = 'b' if ty == U else base
            step(ty, name, f'{b0}.Set({v}.GetRequiredSymbolicName(), {e})', f'{v} == nil || {v}.GetError() != nil || {v}.GetRequiredSymbolicName().GetError() != nil || {e} != nil && {e}.GetError() != nil')
        elif name in ('SetByNode', 'RemoveByNode'): step(ty, name, f'{base}.{name}({a[0]}, {al}...)', f'{a[0]}.GetError() != nil')
        elif name == 'Remove': step(ty, name, f'{base}.Remove({al}...)', f'vcAny(len({al}), func(i int) bool {{ return {al}[i].GetError() != nil }})')
        elif name == 'Unwinds': step(ty, name, f'{base}.Unwind(ListOf({al}...))', f'{bad} || ListOf({al}...).GetError() != nil')
        elif name == 'UnwindByString': step(ty, name, f'{base}.Unwind(ASymbolic({al}))', f'ASymbolic({al}).GetError() != nil')
        elif name == 'Unwind': step(ty, name, f'{base}.Unwind({al})', f'{al} != nil && {al}.GetError() != nil')
        elif name == 'Call': step(ty, name, f'{base}.Call({al})', f'{al} != nil && {al}.GetError() != nil')
        elif name == 'Call1': step(ty, name, f'{base}.Call1({al}...)')
        elif m := re.match(r'(Where|And|Or)Pattern$', name): step(ty, name, f'b.{m.group(1)}(RelationshipPatternConditionCreate({al}))', f'{al} == nil || {al}.GetError() != nil')
        elif m := re.match(r'(Where|And|Or)ConditionContainer$', name): step(ty, name, f'b.{m.group(1)}({al}.Get())')

API = {
 'Match': ('specStart().MatchDefault(false, element...)', 'specBadPatterns(element)'),
 'AnOptionalMatch': ('specStart().MatchDefault(true, element...)', 'specBadPatterns(element)'),
 'MatchWithOption': ('specStart().MatchDefault(optional, element...)', 'specBadPatterns(element)'),
 'Create': ('specStart().Create(patterns...)', 'specBadPatterns(patterns)'),
 'Merge': ('specStart().Merge(patterns...)', 'specBadPatterns(patterns)'),
 'With': ('specStart().WithDefault(false, variables...)', 'specBadExpressions(variables)'),
 'WithByString': ('specStart().WithDefault(false, CreateSymbolicNameByString(variables...)...)', 'specBadExpressions(CreateSymbolicNameByString(variables...))'),
 'WithByNamed': ('specStart().WithDefault(false, CreateSymbolicNameByNamed(variables...)...)', 'specBadNamed(variables) || specBadExpressions(CreateSymbolicNameByNamed(variables...))'),
 'Unwind': ('specStart().Unwind(expression)', 'expression != nil && expression.GetError() != nil'),
 'UnwindMulti': ('specStart().Unwind(ListOf(expressions...))', 'specBadExpressions(expressions)'),
 'CypherReturning': ('specStart().ReturningDefault(false, expressions...)', 'specBadExpressions(expressions)'),
 'ACallByStatement': ('specStart().Call(subquery)', 'subquery != nil && subquery.GetError() != nil'),
 'StatementCall': ('StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...))', 'false'),
 'ACall': ('StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...))', 'false'),
}
for n, (e, g) in API.items():
    m = re.search(r'^func %s\((.*?)\) (\S+) \{$' % n, src, re.M)
    if not m: print('no', n); continue
    sig = ', '.join(f'{p.split()[0]} {"[]" + p.split()[1][3:] if p.split()[1].startswith("...") else p.split()[1]}' for p in m.group(1).split(', '))
    e2 = e if e.startswith('spec') else 'OngoingStandaloneCallWithoutArguments(' + e + ')'
    body.append('%s// @ ensures %s\nfunc st_%s(%s, r %s) bool {\n\treturn %svcSame(r, %s)\n}\n' % ('// @ props C18 C13\n' if 'Call' in n else '', n, n, sig, m.group(2), g + ' || ' if g != 'false' else '', e2))

def wrap(d, names):
    out, line = [], ''
    for n in names:
        line += ' ' + n
        if len(line) > 140: out.append(f'//@ {d}{line}'); line = ''
    if line: out.append(f'//@ {d}{line}')
    return '\n'.join(out)

open('/verif/contracts/steps.go', 'w').write('''package cypher

// Contracts of the steps of the statement builders that hand on to another step.
// Written by tools/mksteps.py.

//@ fileprops C13
''' + wrap('opaque', opaque) + '\n' + wrap('hide', hide) + '\n' + wrap('via', via) + '''

func specStart() DefaultStatementBuilder {
	return DefaultStatementBuilder{currentSinglePartElements: make([]Visitable, 0), multipartElements: make([]MultiPartElement, 0)}
}

func specBadExpressions(es []Expression) bool {
	return vcAny(len(es), func(i int) bool { return es[i] != nil && es[i].GetError() != nil })
}

func specBadPatterns(es []PatternElement) bool {
	return vcAny(len(es), func(i int) bool { return es[i] != nil && es[i].GetError() != nil })
}

func specBadNamed(es []Named) bool {
	return vcAny(len(es), func(i int) bool { return es[i] != nil && es[i].GetError() != nil })
}

''' + '\n'.join(body))
print(len(via), 'steps')

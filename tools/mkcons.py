# Writes contracts/constructors.go: the contracts of the constructors, from the
# table below. The parameters and results are taken from /repo's declarations;
# the table says which arguments are refused and what the element is made of.
import re,glob,sys
REPO='/repo'
src=''
for f in sorted(glob.glob(REPO+'/*.go')):
    if not f.endswith('_test.go'): src+=open(f).read()+'\n'
structs={m.group(1):m.group(2) for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}',src,re.S|re.M)}
ifaces=set(re.findall(r'^type (\w+) interface',src,re.M))
decls={}
for m in re.finditer(r'^func (?:\((\w+) (\*?)(\w+)\) )?(\w+)\(([^\n]*?)\) ?([^\n{]*)\{$',src,re.M):
    rn,ptr,rt,name,params,res=m.groups()
    ps=[]
    if params.strip():
        pend=[]
        for p in params.split(','):
            p=p.strip()
            if ' ' in p:
                n,t=p.split(' ',1)
                for q in pend: ps.append((q,t))
                pend=[]
                ps.append((n,t))
            else: pend.append(p)
    k=(rt+'.' if rt else '')+name
    if rt: ps=[(rn,ptr+rt)]+ps
    decls[k]=(ps,res.strip())
out=[]
def w(s): out.append(s)
w('''package cypher

// Contracts of the constructors: which arguments are refused, and what the
// element made of the others consists of. Written by tools/mkcons.py.

// specPart: the argument is there.
func specPart(e Expression) bool { return e != nil && e.isNotNil() }

// specErr: the argument carries an error.
func specErr(v Visitable) bool { return v != nil && v.GetError() != nil }
''')
def typ(ps,n):
    for a,t in ps:
        if a==n: return t
    raise SystemExit('no parameter '+n)
def bad(ps,b):
    m=re.match(r'([enmz]):(\w+)$',b)
    if not m: return b
    k,n=m.groups()
    t=typ(ps,n)
    lst=None
    if t.startswith('...'): lst=t[3:]
    elif t.startswith('[]'): lst=t[2:]
    if k=='e':
        if lst: return 'vcAny(len(%s), func(i int) bool { return %s })'%(n,'specErr(%s[i])'%n if lst in ifaces else '%s[i].err != nil'%n)
        return 'specErr(%s)'%n if t in ifaces else '%s.err != nil'%n
    if k=='n':
        if lst: return 'vcAny(len(%s), func(i int) bool { return %s[i] == nil })'%(n,n)
        return n+' == nil'
    if k=='m':
        return '%s == nil || !%s.isNotNil()'%(n,n) if t in ifaces else '!%s.notNil'%n
    if k=='z':
        if lst: return 'len(%s) == 0'%n
        return n+' == ""'
def ok(ps,rt,o,x):
    m=re.match(r'(\w+)=(.*)$',o)
    if not m: return o.replace('$',x)
    f,e=m.groups()
    fm=re.search(r'^\s*%s\s+(\S+)$'%f,structs[rt],re.M)
    if not fm: raise SystemExit('no field %s.%s'%(rt,f))
    ft=fm.group(1)
    if ft.startswith('[]'):
        return 'len(%s.%s) == len(%s) && vcAll(len(%s), func(i int) bool { return vcSame(%s.%s[i], %s[i]) })'%(x,f,e,e,x,f,e)
    if ft in('string','bool','int'): 
        if e=='true': return '%s.%s'%(x,f)
        if e=='false': return '!%s.%s'%(x,f)
        return '%s.%s == %s'%(x,f,e)
    if e=='none': return '!%s.%s.notNil'%(x,f)
    return 'vcSame(%s.%s, %s)'%(x,f,e)
def fn(k): return 'en_'+k.replace('.','_')
def C(name,props,bads,oks,fresh=True):
    ps,rt=decls[name]
    bads=bads.split('; ') if bads else []
    oks=oks.split('; ') if oks else []
    fields=structs[rt]
    wrap='E' if re.search(r'^\s*ExpressionContainer$',fields,re.M) else 'C' if re.search(r'^\s*ConditionContainer$',fields,re.M) else None
    sig=', '.join('%s %s'%(a,t.replace('...','[]')) for a,t in ps)
    def cond(x): return ' &&\n\t\t'.join(['%s.err == nil && %s.notNil'%(x,x)]+[ok(ps,rt,o,x) for o in oks])
    w('// @ ensures '+name)
    w('// @ props '+props)
    w('func %s(%s) bool {'%(fn(name),', '.join([sig,'r '+rt]) if sig else 'r '+rt))
    if wrap: w('\tw, ok := r.expression.(%s)'%rt)
    if bads:
        w('\tif %s {'%' || '.join(bad(ps,b) for b in bads))
        w('\t\treturn r.err != nil'+(' && ok && w.err != nil' if wrap else ''))
        w('\t}')
    w('\tif !(%s) {\n\t\treturn false\n\t}'%cond('r'))
    if fresh: w('\tif !vcFresh(r.key) {\n\t\treturn false\n\t}')
    if wrap:
        w('\treturn ok && w.key == r.key && '+cond('w'))
    else: w('\treturn true')
    w('}\n')
def G(name,props,body):
    """a hand-written body; the parameters come from the declaration"""
    ps,rt=decls[name]
    if rt.startswith('('):
        rs=[x.strip() for x in rt[1:-1].split(',')]
        rsig=', '.join('%s %s'%(n,t.split()[-1]) for n,t in zip(['r','err'],rs))
    else: rsig='r '+rt
    sig=', '.join('%s %s'%(a,t.replace('...','[]')) for a,t in ps)
    w('// @ ensures '+name)
    w('// @ props '+props)
    w('func %s(%s) bool {'%(fn(name),(sig+', ' if sig else '')+rsig))
    w(body.strip('\n').replace('    ','\t') if body.strip().startswith('return') is False or '\n' in body else '\t'+body.strip())
    w('}\n')
def ALIAS(name,props,expr):
    """a shorthand: the same as the other constructor"""
    ps,rt=decls[name]
    G(name,props,'return vcSame(r, %s)'%expr)

# --- expressions
C('AsteriskCreate','C08','','content="*"')
C('DistinctExpressionCreate','C12 C04','e:delegate','delegate=delegate')
C('NestedExpressionCreate','C11 C10 C04','e:delegate','delegate=delegate')
C('ExpressionListCreate','C08 C07 C04','e:expressions','expressions=expressions')
C('ListExpressionCreate','C07 C04','e:content','content=content')
C('ParameterCreate','C01','''strings.TrimLeft(name, "$") == ""''','name=strings.TrimLeft(name, "$")') if False else None
C('SymbolicNameCreate','C01 C09','z:value','value=value')
C('SymbolicNameUnResolve','C01','','value=""')
C('PropertyCreate1','C01 C04','e:container; container == nil; name.err != nil','container=container; name=name')
C('PropertyCreate2','C01 C04','e:container; container == nil; z:name','container=container; $.name.propertyKeyName == name && $.name.err == nil')
C('MapExpressionCreate','C15 C04','e:newContents','expressions=newContents')
C('MapProjectionCreateWithMapExpression','C15 C04','e:name; e:mapExpression','name=name; mapExpression=mapExpression')
C('EntryExpressionCreate','C15 C04','e:value','Key=key; Value=value')
C('NameSpaceCreate','C18 C01','','content=content')
C('DotCreate','C19','','content=content')

# --- literals
C('StringLiteralCreate','C02','','content=content')
C('RawStringLiteralCreate','C02 C03','','content=content')
C('BooleanLiteralCreate','C03','','content=content')
C('NullLiteralCreate','C03','','')
C('ListLiteralCreate','C03 C04','e:contents','content=contents')

# --- conditions
C('ConstantConditionCreate','C10 C11','e:value','value=value')
C('ExcludedPatternCreate','C16 C11 C04','e:patternElement','patternElement=patternElement')
C('ExistentialSubqueryCreate','C18 C04','e:fragment','fragment=fragment')
C('RelationshipPatternConditionCreate','C16 C10 C04','e:pathPattern','pathPattern=pathPattern')
C('HasLabelConditionCreate1','C16 C01 C04','e:nodeName; m:nodeName; z:labels; e:labels','nodeName=nodeName; nodeLabels=labels')
C('HasLabelConditionCreate','C16 C01 C04','e:nodeName; m:nodeName; z:labels','nodeName=nodeName; len($.nodeLabels) == len(labels) && vcAll(len(labels), func(i int) bool { return specLabel($.nodeLabels[i], labels[i]) })')
C('CompoundConditionCreate1','C10','e:operator','operator=operator; len($.conditions) == 0')

# --- CASE
C('SimpleCaseCreate','C19 C04','e:caseExpression; e:caseWhenThens','caseExpression=caseExpression; caseWhenThens=caseWhenThens; $.caseElse.notNil == false')
C('SimpleCaseCreate1','C19 C04','e:caseExpression','caseExpression=caseExpression; len($.caseWhenThens) == 0; $.caseElse.notNil == false')
C('EndingSimpleCaseCreate','C19 C04','e:caseExpression; e:caseWhenThens','caseExpression=caseExpression; caseWhenThens=caseWhenThens; $.caseElse.notNil == false')
C('GenericCaseCreate','C19 C04','e:caseWhenThens','$.caseExpression == nil; caseWhenThens=caseWhenThens; $.caseElse.notNil == false')
C('GenericCaseCreate1','C19 C04','','$.caseExpression == nil; len($.caseWhenThens) == 0; $.caseElse.notNil == false')
C('EndingGenericCaseCreate','C19 C04','e:caseWhenThens','$.caseExpression == nil; caseWhenThens=caseWhenThens; $.caseElse.notNil == false')
C('CaseWhenThenCreate','C19 C04','n:whenExpression; n:thenExpression; e:whenExpression; e:thenExpression','whenExpression=whenExpression; thenExpression=thenExpression')
C('CaseElseCreate','C19 C04','n:elseExpression; e:elseExpression','elseExpression=elseExpression')
G('OngoingWhenThenCreate','C19 C04','''
    if whenExpression == nil || specErr(whenExpression) {
        return r.err != nil
    }
    return r.err == nil && r.caseInstance == caseInstance && vcSame(r.whenExpression, whenExpression)
''')
G('Case.When','C19 C04','''
    if c.err != nil || nextExpression == nil || specErr(nextExpression) {
        return r.err != nil
    }
    return r.err == nil && r.caseInstance != nil && vcSame(r.whenExpression, nextExpression) && specCaseAs(*r.caseInstance, c)
''')
w('''// specCaseAs: the same subject, branches and default.
func specCaseAs(r Case, c Case) bool {
	return vcSame(r.caseExpression, c.caseExpression) && vcSame(r.caseElse, c.caseElse) &&
		len(r.caseWhenThens) == len(c.caseWhenThens) &&
		vcAll(len(c.caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], c.caseWhenThens[i]) })
}

func specBrokenCase(c Case) bool {
	return c.err != nil || specErr(c.caseExpression) || c.caseElse.err != nil || specErr(c.caseElse.elseExpression) || c.caseElse.notNil && c.caseElse.elseExpression == nil ||
		vcAny(len(c.caseWhenThens), func(i int) bool { return c.caseWhenThens[i].err != nil })
}

func specDefault(r Case, c Case, e Expression) bool {
	return r.err == nil && r.notNil && vcSame(r.caseExpression, c.caseExpression) &&
		r.caseElse.notNil && r.caseElse.err == nil && vcSame(r.caseElse.elseExpression, e) &&
		len(r.caseWhenThens) == len(c.caseWhenThens) &&
		vcAll(len(c.caseWhenThens), func(i int) bool { return vcSame(r.caseWhenThens[i], c.caseWhenThens[i]) })
}

// specBranch: one more branch, after those that are there; the subject and the
// default stay.
func specBranch(r Case, c Case, when Expression, then Expression) bool {
	n := len(c.caseWhenThens)
	if r.err != nil || !r.notNil || len(r.caseWhenThens) != n+1 {
		return false
	}
	if specPart(c.caseExpression) {
		if !vcSame(r.caseExpression, c.caseExpression) {
			return false
		}
	} else if specPart(r.caseExpression) {
		return false
	}
	if c.caseElse.notNil {
		if !r.caseElse.notNil || !vcSame(r.caseElse.elseExpression, c.caseElse.elseExpression) {
			return false
		}
	} else if r.caseElse.notNil {
		return false
	}
	return r.caseWhenThens[n].err == nil && r.caseWhenThens[n].notNil &&
		vcSame(r.caseWhenThens[n].whenExpression, when) && vcSame(r.caseWhenThens[n].thenExpression, then) &&
		vcAll(n, func(i int) bool { return vcSame(r.caseWhenThens[i], c.caseWhenThens[i]) })
}
''')
G('Case.ElseDefault','C19 C04','''
    if c.err != nil || defaultExpression == nil || specErr(defaultExpression) {
        return specErr(r)
    }
    made, ok := r.(Case)
    if !ok || !specDefault(made, c, defaultExpression) {
        return false
    }
    w, ok := made.expression.(Case)
    return ok && w.key == made.key && specDefault(w, c, defaultExpression)
''')
G('OngoingWhenThen.Then','C19 C04','''
    if o.err != nil || expression == nil || specErr(expression) {
        return specErr(r)
    }
    if o.whenExpression == nil || specErr(o.whenExpression) || o.caseInstance == nil {
        return true
    }
    if specErr(r) {
        return specBrokenCase(*o.caseInstance)
    }
    made, ok := r.(Case)
    if !ok || !specBranch(made, *o.caseInstance, o.whenExpression, expression) {
        return false
    }
    w, ok := made.expression.(Case)
    return ok && w.key == made.key && specBranch(w, *o.caseInstance, o.whenExpression, expression)
''')

# --- comprehensions and list access
C('ListComprehensionCreate','C19 C04','e:variable; n:listExpression; e:listExpression; e:where; e:listDefinition','variable=variable; listExpression=listExpression; where=where; listDefinition=listDefinition')
C('PatternComprehensionCreate','C19 C04','n:pattern; n:listDefinition; e:pattern; e:where; e:listDefinition','pattern=pattern; where=where; listDefinition=listDefinition')
C('ListPredicateCreate','C19 C04','e:variable; e:listExpression; e:where; m:listExpression; m:where','variable=variable; listExpression=listExpression; where=where')
C('ListOperatorDetailsCreate','C19 C04','e:optionalStart; e:optionalEnd','optionalStart=optionalStart; dots=dots; optionalEnd=optionalEnd')
def access(name,start,dots,end,t='targetExpression'):
    b=[]
    for p in (t,start,end):
        if p: b+=['e:'+p,'m:'+p]
    C(name,'C19 C04','; '.join(b),'targetExpression=%s; $.details.err == nil && $.details.notNil; %s; %s; %s'%(t,
      'vcSame($.details.optionalStart, %s)'%start if start else '$.details.optionalStart == nil',
      '$.details.dots.notNil && $.details.dots.content == ".."' if dots else '!$.details.dots.notNil',
      'vcSame($.details.optionalEnd, %s)'%end if end else '$.details.optionalEnd == nil'))
access('SubList','start',True,'end')
access('SubListFrom','start',True,None)
access('SubListUntil',None,True,'end')
access('ValueAt','index',False,None)
G('ListComprehensionBuilderCreate','C19 C04','''
    return vcSame(r.variable, variable) && r.listExpression == nil && !r.where.notNil && (r.err != nil) == (variable.err != nil)
''')
G('ListComprehensionBuilder.In','C19','''
    b, ok := r.(ListComprehensionBuilder)
    return ok && vcSame(b.variable, l.variable) && vcSame(b.listExpression, list) && vcSame(b.where, l.where) && (b.err != nil) == (l.err != nil)
''')
G('ListComprehensionBuilder.Where','C19 C04','''
    b, ok := r.(ListComprehensionBuilder)
    return ok && vcSame(b.variable, l.variable) && vcSame(b.listExpression, l.listExpression) && (b.err != nil) == (l.err != nil) &&
        specWhere(b.where, condition)
''')
w('''func specWhere(w Where, condition Condition) bool {
	if specErr(condition) {
		return w.err != nil
	}
	return w.err == nil && w.notNil && vcSame(w.condition, condition)
}

func specComprehension(r ListComprehension, l ListComprehensionBuilder, definition Expression) bool {
	if l.err != nil || l.variable.err != nil || l.listExpression == nil || specErr(l.listExpression) || l.where.err != nil || specErr(definition) {
		return r.err != nil
	}
	return r.err == nil && r.notNil && vcSame(r.variable, l.variable) && vcSame(r.listExpression, l.listExpression) &&
		vcSame(r.where, l.where) && vcSame(r.listDefinition, definition)
}
''')
G('ListComprehensionBuilder.build','C19 C04','return specComprehension(r, l, listDefinition)')
G('ListComprehensionBuilder.ReturningDefault','C19 C04','return specComprehension(r, l, nil)')
G('ListComprehensionBuilder.Returning','C19 C04','''
    if len(expressions) == 0 {
        return r.err != nil
    }
    if len(expressions) == 1 {
        return specComprehension(r, l, expressions[0])
    }
    if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
        return r.err != nil
    }
    if l.err != nil || l.variable.err != nil || l.listExpression == nil || specErr(l.listExpression) || l.where.err != nil {
        return r.err != nil
    }
    return r.err == nil && r.notNil && vcSame(r.variable, l.variable) && vcSame(r.listExpression, l.listExpression) &&
        vcSame(r.where, l.where) && specListOf(r.listDefinition, expressions)
''')
w('''func specListOf(x Expression, expressions []Expression) bool {
	list, ok := x.(ListExpression)
	return ok && list.err == nil && list.notNil && list.content.err == nil && list.content.notNil && len(list.content.expressions) == len(expressions) &&
		vcAll(len(expressions), func(i int) bool { return vcSame(list.content.expressions[i], expressions[i]) })
}
''')
G('ListOrSingleExpression','C19 C04','''
    if len(expressions) == 0 {
        return specErr(r)
    }
    if len(expressions) == 1 {
        return vcSame(r, expressions[0])
    }
    if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
        return specErr(r)
    }
    return specListOf(r, expressions)
''')
G('ListExpressionCreate1','C07 C04','''
    if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
        return r.err != nil
    }
    return specListOf(r, expressions)
''')
G('ListOf','C07 C04','''
    if vcAny(len(expressions), func(i int) bool { return specErr(expressions[i]) }) {
        return r.err != nil
    }
    return specListOf(r, expressions)
''')
G('PatternComprehensionBuilderCreate','C19 C04','''
    return vcSame(r.pattern, pattern) && r.conditionBuilder.condition == nil && (r.err != nil) == specErr(pattern)
''')
for n in ('PatternComprehensionBasedOn','PatternComprehensionBasedOnNamePath','ListBasedOn','ListBasedOnNamed'):
    p=decls[n][0][0][0]
    if decls[n][0][0][1] in ifaces: nn='%s.isNotNil()'%p
    else: nn='%s.notNil'%p
    G(n,'C19 C04','''
    b, ok := r.(PatternComprehensionBuilder)
    if specErr(%s) || !%s {
        return ok && b.err != nil
    }
    return ok && b.err == nil && vcSame(b.pattern, %s) && b.conditionBuilder.condition == nil
'''%(p,nn,p))
G('PatternComprehensionBuilder.Returning','C19 C04','''
    if p.err != nil || len(listDefinitions) == 0 || vcAny(len(listDefinitions), func(i int) bool { return specErr(listDefinitions[i]) }) || specErr(p.conditionBuilder.condition) || p.pattern == nil || specErr(p.pattern) {
        return r.err != nil
    }
    if len(listDefinitions) == 1 {
        if listDefinitions[0] == nil {
            return r.err != nil
        }
        if !vcSame(r.listDefinition, listDefinitions[0]) {
            return false
        }
    } else if !specListOf(r.listDefinition, listDefinitions) {
        return false
    }
    if specConditioned(p.conditionBuilder) {
        if r.where.err != nil || !r.where.notNil || !vcSame(r.where.condition, p.conditionBuilder.condition) {
            return false
        }
    } else if r.where.notNil {
        return false
    }
    return r.err == nil && r.notNil && vcSame(r.pattern, p.pattern)
''')
w('''// specConditioned: there is a condition that is not the empty one.
func specConditioned(b ConditionBuilder) bool {
	if b.condition == nil || !b.condition.isNotNil() {
		return false
	}
	compound, isCompound := b.condition.(CompoundCondition)
	return !isCompound || (compound.conditionType != EMPTY_CONDITION_EXPRESSION && len(compound.conditions) > 0)
}
''')
G('ConditionBuilder.hasCondition','C10 C08','return r == specConditioned(*c)')
G('ConditionBuilder.buildCondition','C10 C08','''
    if specConditioned(*c) || specErr(c.condition) {
        return vcSame(r, c.condition)
    }
    return r == nil
''')
G('ConditionBuilder.getError','C04','return (r != nil) == specErr(c.condition)')

# --- clauses
C('ArgumentsCreate','C18 C04','e:expression','expressions=expression')
C('YieldItemsCreate','C18 C04','z:expressions; e:expressions','expressions=expressions')
C('WhereCreate','C08 C04','e:condition','condition=condition')
C('MatchPhraseCreate','C08 C04','e:pattern; e:optionalWhere','optional=optional; pattern=pattern; optionalWhere=optionalWhere')
C('PatternCreate','C08 C16 C04','e:patternElements','patternElements=patternElements')
C('createcreate','C08 C20 C04','e:pattern','pattern=pattern')
C('DeleteCreate','C20 C04','e:deleteItems','deleteItems=deleteItems; detach=detach')
C('SetCreate','C20 C04','e:setItems','setItems=setItems')
C('RemoveCreate','C20 C04','e:setItems','setItems=setItems')
C('mergeCreate','C20 C04','e:pattern','pattern=pattern; len($.onCreateOrMatchEvents) == 0')
C('mergeCreate1','C20 C04','e:pattern; e:mergeActions','pattern=pattern; specActions(*, mergeActions)'.replace('*','$'))
w('''// specActions: the actions in order, after the blank.
func specActions(m merge, actions []MergeAction) bool {
	return len(m.onCreateOrMatchEvents) == len(actions)+1 && specIsBlank(m.onCreateOrMatchEvents[0]) &&
		vcAll(len(actions), func(i int) bool {
			a, ok := m.onCreateOrMatchEvents[i+1].(MergeAction)
			return ok && vcSame(a, actions[i])
		})
}

func specIsBlank(v Visitable) bool {
	return vcSame(v, BLANK)
}
''')
C('MergeActionCreate','C20 C04','e:set','mergeType=mergeType; set=set')
C('OrderCreate','C17 C04','e:sortItems','sortItems=sortItems')
C('SortItemCreate','C17 C04','n:expression; e:expression','expression=expression; $.direction.value == direction')
C('ReturnCreate','C08 C04','e:body','distinct=distinctInstance; body=body')
C('ReturnBodyCreate','C08 C17 C04','e:returnItems; e:order; e:skip; e:limit','returnItems=returnItems; order=order; skip=skip; limit=limit')
C('ReturnCreate1','C08 C17 C04','e:returnItems; e:order; e:skip; e:limit','$.distinct.notNil == distinct; $.body.err == nil && $.body.notNil; vcSame($.body.returnItems, returnItems); vcSame($.body.order, order); vcSame($.body.skip, skip); vcSame($.body.limit, limit)')
C('withCreate','C08 C17 C04','e:returnItems; e:order; e:skip; e:limit; e:where','$.distinct.notNil == distinct; $.body.err == nil && $.body.notNil; vcSame($.body.returnItems, returnItems); vcSame($.body.order, order); vcSame($.body.skip, skip); vcSame($.body.limit, limit); where=where')
C('unwindCreate','C08 C09 C04','n:expressionToUnwind; e:expressionToUnwind; z:variable','variable=variable; specUnwound($.expressionToUnwind, expressionToUnwind)')
w('''// specUnwound: an aliased expression is unwound by its alias.
func specUnwound(x Expression, e Expression) bool {
	aliased, isAliased := e.(AliasedExpression)
	if isAliased {
		name, ok := x.(SymbolicName)
		return ok && (aliased.alias == "" || name.err == nil && name.notNil && name.value == aliased.alias)
	}
	return vcSame(x, e)
}
''')
C('ProcedureCallCreate','C18 C04','e:name; e:arguments; e:yieldItems; e:optionalWhere','name=name; arguments=arguments; yieldItems=yieldItems; optionalWhere=optionalWhere')
C('ProcedureNameCreate1','C18 C01','','value=value; !$.optionalNamespace.notNil')
C('ProcedureNameCreate2','C18 C01 C04','e:namespace','value=value; optionalNamespace=namespace')
C('ProcedureNameCreate','C18 C01','z:namespaceAndProcedure','specQualified($, namespaceAndProcedure)')
w('''// specQualified: the last part is the name, the others are its namespace.
func specQualified(p ProcedureName, parts []string) bool {
	n := len(parts) - 1
	if p.value != parts[n] {
		return false
	}
	if n == 0 {
		return !p.optionalNamespace.notNil
	}
	return p.optionalNamespace.notNil && p.optionalNamespace.err == nil && len(p.optionalNamespace.content) == n &&
		vcAll(n, func(i int) bool { return p.optionalNamespace.content[i] == parts[i] })
}
''')
C('RelationshipLengthCreate','C16','','unbounded=unbounded; $.minimum == nil && $.maximum == nil')
C('RelationshipLengthCreate1','C16','','$.minimum == minimum && $.maximum == maximum; unbounded=false')
C('RelationshipTypesCreate','C16','','values=types')
C('SubqueryCreate','C18 C04','e:statement','statement=statement')
C('SubqueryCall','C18 C04','e:statement; !specReturns(statement)','statement=statement')
w('''// specReturns: the statement returns elements, by RETURN or by YIELD.
func specReturns(s Statement) bool {
	single, isSingle := s.(SinglePartQuery)
	if isSingle {
		return single.aReturn.notNil
	}
	multi, isMulti := s.(MultiPartQuery)
	if isMulti {
		return multi.remainder.aReturn.notNil
	}
	call, isCall := s.(ProcedureCall)
	if isCall {
		return call.yieldItems.notNil
	}
	_, isUnion := s.(UnionQuery)
	return isUnion
}
''')
C('UnionPartCreate','C18 C04','e:query','all=all; query=query')
C('UnionQueryCreate','C18 C04','len(queries) < 2; e:queries','all=all; vcSame($.firstQuery, queries[0]); len($.additionalQueries) == len(queries)-1 && vcAll(len(queries)-1, func(i int) bool { return specUnionPart($.additionalQueries[i], all, queries[i+1]) })')
w('''func specUnionPart(p UnionPart, all bool, query SingleQuery) bool {
	return p.err == nil && p.notNil && p.all == all && vcSame(p.query, query)
}
''')
C('unionQueryCreate1','C18','','all=all; firstQuery=firstQuery; additionalQueries=additionalQueries')
C('SinglePartQueryCreate','C08 C13 C04','specUnfinished(clauses) && !aReturn.notNil; e:clauses; e:aReturn','precedingClauses=clauses; aReturn=aReturn')
w('''// specUnfinished: nothing, or reading without anything done with it.
func specUnfinished(clauses []Visitable) bool {
	if len(clauses) == 0 {
		return true
	}
	_, isMatch := clauses[len(clauses)-1].(MatchPhrase)
	return isMatch
}
''')
C('MultiPartElementCreate','C08 C13 C04','e:precedingClauses; e:with','specAllOf($.precedingClauses, precedingClauses); vcSame($.with, with)')
w('''// specAllOf: the same clauses in the same order.
func specAllOf(r []Visitable, clauses []Visitable) bool {
	if len(clauses) == 0 {
		return len(r) == 0
	}
	return len(r) == len(clauses) && vcAll(len(clauses), func(i int) bool { return vcSame(r[i], clauses[i]) })
}
''')
G('CreateBuilder.build','C20 C13 C04','''
    if vcAny(len(c.patternElements), func(i int) bool { return specErr(c.patternElements[i]) }) {
        return specErr(r)
    }
    made, ok := r.(create)
    return ok && made.err == nil && made.notNil && specPatternOf(made.pattern, c.patternElements)
''')
G('MergeBuilder.build','C20 C13 C04','''
    if vcAny(len(c.patternElements), func(i int) bool { return specErr(c.patternElements[i]) }) ||
        vcAny(len(c.mergeActions), func(i int) bool { return c.mergeActions[i].err != nil }) {
        return specErr(r)
    }
    made, ok := r.(merge)
    return ok && made.err == nil && made.notNil && specPatternOf(made.pattern, c.patternElements) && specActions(made, c.mergeActions)
''')
w('''func specPatternOf(p Pattern, elements []PatternElement) bool {
	return p.err == nil && p.notNil && len(p.patternElements) == len(elements) &&
		vcAll(len(elements), func(i int) bool { return vcSame(p.patternElements[i], elements[i]) })
}
''')
C('MultiPartQueryCreate','C08 C13 C04','e:parts; e:remainder','parts=parts; remainder=remainder')
G('SinglePartQuery.doesReturnElements','C18','return r == s.aReturn.notNil')
G('MultiPartQuery.doesReturnElements','C18','return r == m.remainder.aReturn.notNil')
G('ProcedureCall.doesReturnElements','C18','return r == p.yieldItems.notNil')
G('Delete.isDetach','C20','return r == d.detach')
G('MatchPhrase.isOptional','C08','return r == match.optional')
G('UnionPart.isAll','C18','return r == u.all')
G('merge.hasEvent','C20','return r == (len(m.onCreateOrMatchEvents) > 0)')
G('AliasedExpression.GetAlias','C09','return r == aliased.alias')
G('FunctionArgumentListCreate','C12 C04','''
    return (r.err != nil) == vcAny(len(visitables), func(i int) bool { return specErr(visitables[i]) }) &&
        len(r.expressions) == len(visitables) && vcAll(len(visitables), func(i int) bool { return vcSame(r.expressions[i], visitables[i]) })
''')
C('LimitCreate','C17','number <= 0','specNumber($.limitAmount, number)')
C('SkipCreate','C17','number < 0','specNumber($.skipAmount, number)')
w('''// specNumber: the literal of this number.
func specNumber(l NumberLiteral, number int) bool {
	return vcSame(l, NumberLiteralCreate1(number))
}
''')
ALIAS('MatchBuilder.buildMatch','C08 C13','MatchPhraseCreate(builder.optional, PatternCreate(builder.patternList), specBuiltWhere(builder.conditionBuilder))')
w('''func specBuiltWhere(b ConditionBuilder) Where {
	if specConditioned(b) || specErr(b.condition) {
		return WhereCreate(b.condition)
	}
	return Where{}
}
''')
# --- the shorthands of the API
for n,e,p in [
 ('AnAsterisk','ASTERISK','C08'),
 ('APropertyByExpression','PropertyCreate2(expression, name)','C01'),
 ('AProperty','PropertyCreate2(SymbolicNameCreate(containerName), name)','C01'),
 ('ASymbolic','SymbolicNameCreate(value)','C01'),
 ('AParam','ParameterCreate(name)','C01'),
 ('Sort','SortItemCreate(expression, UNDEFINED)','C17'),
 ('CreateAscendingSortItem','SortItemCreate(expression, ASC)','C17'),
 ('CreateDescendingSortItem','SortItemCreate(expression, DESC)','C17'),
 ('LiteralTrue','BooleanLiteralCreate(true)','C03'),
 ('LiteralFalse','BooleanLiteralCreate(false)','C03'),
 ('GenericCaseExpression','GenericCaseCreate1()','C19'),
 ('CaseExpression','SimpleCaseCreate1(expression)','C19'),
 ('ExistentialSubqueryExists','ExistentialSubqueryCreate(fragment)','C18'),
 ('StatementCall','StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...))','C18'),
 ('ACall','StandaloneCallBuilderCreate(ProcedureNameCreate(namespaceAndProcedure...))','C18'),
 ('RelationshipLength.Unbounded','RelationshipLengthCreate(true)','C16'),
 ('DeleteBuilder.build','c.delete','C20 C13'),
 ('SetBuilder.build','s.set','C20 C13'),
 ('RemoveBuilder.build','r0.remove','C20 C13'),
]:
    if n=='RemoveBuilder.build':
        w('// @ ensures RemoveBuilder.build\n// @ props C20 C13\nfunc en_RemoveBuilder_build(b RemoveBuilder, r UpdatingClause) bool {\n\treturn vcSame(r, b.remove)\n}\n')
        continue
    ALIAS(n,p,e)
G('ASubList','C19','return specAccess(r, targetExpression, true, true, start, true, true, end)')
G('CypherSubListFrom','C19','return specAccess(r, targetExpression, true, true, start, true, false, 0)')
G('ASubListUntil','C19','return specAccess(r, targetExpression, true, false, 0, true, true, end)')
G('CypherValueAt','C19','return specAccess(r, targetExpression, true, true, index, false, false, 0)')
w('''func specAccess(x Expression, target Expression, _ bool, hasStart bool, start int, dots bool, hasEnd bool, end int) bool {
	if !specPart(target) || specErr(target) {
		return specErr(x)
	}
	l, ok := x.(ListOperator)
	if !ok || l.err != nil || !l.notNil || !vcSame(l.targetExpression, target) || l.details.err != nil || !l.details.notNil {
		return false
	}
	if dots != l.details.dots.notNil || dots && l.details.dots.content != ".." {
		return false
	}
	if hasStart {
		s, ok := l.details.optionalStart.(NumberLiteral)
		if !ok || !specNumber(s, start) {
			return false
		}
	} else if l.details.optionalStart != nil {
		return false
	}
	if hasEnd {
		e, ok := l.details.optionalEnd.(NumberLiteral)
		return ok && specNumber(e, end)
	}
	return l.details.optionalEnd == nil
}
''')
for n,e,p in [('ASubListFromByExpression','SubListFrom(targetExpression, start)','C19'),
 ('CypherSubListUntilByExpression','SubListUntil(targetExpression, end)','C19'),
 ('CypherValueAtByExpression','ValueAt(targetExpression, index)','C19')]:
    ALIAS(n,p,e)
G('LiteralOf','C03 C04','''
    if object == nil {
        l, ok := r.(NilLiteral)
        return ok && l.notNil && l.err == nil
    }
    if text, isString := object.(string); isString {
        l, ok := r.(StringLiteral)
        return ok && l.notNil && l.err == nil && l.content == text
    }
    if number, isInt := object.(int); isInt {
        return vcSame(r, NumberLiteralCreate1(number))
    }
    if number, isFloat := object.(float64); isFloat {
        return vcSame(r, NumberLiteralCreate2(number))
    }
    if truth, isBool := object.(bool); isBool {
        l, ok := r.(BooleanLiteral)
        return ok && l.notNil && l.err == nil && l.content == truth
    }
    if list, isList := object.([]Literal); isList {
        l, ok := r.(ListLiteral)
        if vcAny(len(list), func(i int) bool { return specErr(list[i]) }) {
            return specErr(r)
        }
        return ok && l.err == nil && l.notNil && len(l.content) == len(list) && vcAll(len(list), func(i int) bool { return vcSame(l.content[i], list[i]) })
    }
    return specErr(r)
''')
open('/verif/contracts/constructors.go','w').write('\n'.join(out))
import subprocess
subprocess.run(['gofmt','-w','/verif/contracts/constructors.go'],check=True)

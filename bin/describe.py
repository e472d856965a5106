"""Flattens the model descriptions of built FMUs into a table for the driver."""
import os, re
import xml.etree.ElementTree as ET

TY3 = {'Float32': 'F32', 'Float64': 'F64', 'Int8': 'I8', 'UInt8': 'U8', 'Int16': 'I16', 'UInt16': 'U16', 'Int32': 'I32', 'UInt32': 'U32', 'Int64': 'I64', 'UInt64': 'U64',
       'Boolean': 'BOOL', 'String': 'STR', 'Binary': 'BIN', 'Clock': 'CLK', 'Enumeration': 'I64'}
TY2 = {'Real': 'F64', 'Integer': 'I32', 'Enumeration': 'I32', 'Boolean': 'BOOL', 'String': 'STR'}
KINDS = {'ModelExchange': 'ME', 'CoSimulation': 'CS', 'ScheduledExecution': 'SE'}


def hexs(s):
    return s.encode().hex() or '-'


def initial(a, start):
    if a.get('initial'):
        return a['initial']
    c, v = a.get('causality', 'local'), a.get('variability')
    if v == 'constant' or c in ('parameter', 'structuralParameter', 'input'):
        return 'exact'
    return 'none' if c == 'independent' else 'calculated'


def dependencies(tag, elements, vr, ref):
    out = []
    for e in elements:
        if e.get('dependencies') is not None:
            d = [str(ref(int(x))) for x in e.get('dependencies').split()]
            k = (e.get('dependenciesKind') or '').split() or ['dependent'] * len(d)
            out.append('%s\t%d\t%s\t%s' % (tag, vr(e), ','.join(d) or '-', ','.join(k) or '-'))
    return out


def problems(root, ver):
    """Contradictions within a model description."""
    out = []
    bad = lambda *a: out.append(' '.join(str(x) for x in a))
    if not re.match(r'2\.0$' if ver == 2 else r'3\.0', root.get('fmiVersion', '')):
        bad('the version of FMI is', root.get('fmiVersion'))
    units = {u.get('name'): {d.get('name') for d in u.findall('DisplayUnit')} for u in root.findall('UnitDefinitions/Unit')}
    types = {}
    for e in root.find('TypeDefinitions') if root.find('TypeDefinitions') is not None else []:
        t = [c for c in e if c.tag in TY2][0] if ver == 2 else e
        if e.get('name') in types:
            bad('type', e.get('name'), 'is defined twice')
        types[e.get('name')] = (t.tag if ver == 2 else e.tag[:-len('Type')], t)
    names, refs, rows = set(), {}, []
    for e in root.find('ModelVariables'):
        t = [c for c in e if c.tag in TY2][0] if ver == 2 else e
        a = dict(e.attrib)
        a.update(t.attrib)
        for n in [e.get('name')] + [x.get('name') for x in e.findall('Alias')]:
            if n in names:
                bad('the name', n, 'is used twice')
            names.add(n)
        a['_'] = t
        if ver == 3 and a['valueReference'] in refs:
            bad('value reference', a['valueReference'], 'is used twice')
        refs[a['valueReference']] = a
        rows.append(a)
    for a in rows:
        n, t = a['name'], a['_']
        real = t.tag in ('Real', 'Float32', 'Float64')
        d = types.get(a.get('declaredType'))
        if a.get('declaredType') and (not d or d[0] != t.tag):
            bad('the type', a['declaredType'], 'of', n, 'is not defined')
        unit = a.get('unit') or (d[1].get('unit') if d else None)
        if unit and unit not in units:
            bad('the unit', unit, 'of', n, 'is not defined')
        for x in [a] + t.findall('Alias'):
            if x.get('displayUnit') and x.get('displayUnit') not in units.get(unit, ()):
                bad('the display unit', x.get('displayUnit'), 'of', n, 'is not defined')
        c, v = a.get('causality', 'local'), a.get('variability', 'continuous' if real else 'discrete')
        if v == 'continuous' and not real:
            bad(n, 'is continuous but no floating point number')
        if c in ('parameter', 'calculatedParameter') and v not in ('fixed', 'tunable') or c == 'structuralParameter' and v not in ('fixed', 'tunable') or \
                c == 'input' and v not in ('discrete', 'continuous') or c == 'independent' and v != 'continuous' or c == 'output' and v in ('fixed', 'tunable'):
            bad(n, 'cannot be', v, c)
        i = initial(dict(a, variability=v), None)
        has = t.get('start') is not None or bool(t.findall('Start'))
        if t.tag != 'Clock':
            if i in ('exact', 'approx') and not has:
                bad(n, 'has no start value')
            if (i == 'calculated' or c == 'independent') and has:
                bad(n, 'has a start value although it is calculated')
        for k in ('derivative', 'previous'):
            if a.get(k) and (int(a[k]) > len(rows) if ver == 2 else a[k] not in refs):
                bad(k, 'of', n, 'does not exist')
        for k in (a.get('clocks') or '').split():
            if k not in refs or refs[k]['_'].tag != 'Clock':
                bad('clock', k, 'of', n, 'does not exist')
        if t.tag == 'Enumeration' and d and has:
            if a['start'] not in [x.get('value') for x in d[1].findall('Item')]:
                bad('the start value of', n, 'is no item of its type')
    for tag in KINDS:
        for e in root.findall(tag):
            can = lambda *names: any(e.get(x) == 'true' for x in names)
            if can('canSerializeFMUState', 'canSerializeFMUstate') and not can('canGetAndSetFMUState', 'canGetAndSetFMUstate'):
                bad('states of', tag, 'can be serialized but not saved')
            if can('canReturnEarlyAfterIntermediateUpdate') and not can('providesIntermediateUpdate'):
                bad(tag, 'can return early after intermediate updates but provides none')
    if sum(a.get('causality') == 'independent' for a in rows) > 1:
        bad('there are several independent variables')
    ms = root.find('ModelStructure')
    var = lambda e: rows[int(e.get('index')) - 1] if ver == 2 else refs.get(e.get('valueReference'))
    kinds = ('Outputs/Unknown', 'Derivatives/Unknown', 'InitialUnknowns/Unknown') if ver == 2 else ('Output', 'ContinuousStateDerivative', 'InitialUnknown', 'EventIndicator', 'ClockedState')
    listed = {}
    for k in kinds:
        for e in ms.findall(k):
            if (ver == 2 and not 1 <= int(e.get('index')) <= len(rows)) or not var(e):
                bad('an entry of', k, 'does not exist')
                continue
            n = var(e)['name']
            if n in listed.setdefault(k, []):
                bad(n, 'is listed twice as', k)
            listed[k].append(n)
            dep = (e.get('dependencies') or '').split()
            if e.get('dependenciesKind') is not None and len(e.get('dependenciesKind').split()) != len(dep):
                bad('the dependencies of', n, 'and their kinds differ in number')
            for x in dep:
                if not (1 <= int(x) <= len(rows) if ver == 2 else x in refs):
                    bad('a dependency of', n, 'does not exist')
    if set(listed.get(kinds[0], [])) != {a['name'] for a in rows if a.get('causality') == 'output'}:
        bad('the outputs of the model structure are', ' '.join(listed.get(kinds[0], [])))
    if out:
        return out
    states = set()
    for n in listed.get(kinds[1], []):
        a = [a for a in rows if a['name'] == n][0]
        if not a.get('derivative'):
            bad(n, 'is listed as a derivative but is none')
        else:
            states.add((rows[int(a['derivative']) - 1] if ver == 2 else refs[a['derivative']])['name'])
    want = set()
    for a in rows:
        if a['_'].tag != 'Clock' and not a.get('clocks') and initial(a, None) in ('approx', 'calculated'):
            c = a.get('causality', 'local')
            if c in ('output', 'calculatedParameter') or a['name'] in states or a['name'] in listed.get(kinds[1], []):
                want.add(a['name'])
    for n in want ^ set(listed.get(kinds[2], [])):
        bad(n, 'is missing as an initial unknown' if n in want else 'is no initial unknown')
    x = root.find('DefaultExperiment')
    if x is not None:
        if float(x.get('stopTime', 'inf')) <= float(x.get('startTime', '0')) or float(x.get('stepSize', '1')) <= 0:
            bad('the default experiment does not advance')
        elif float(x.get('stepSize', '0')) > float(x.get('stopTime', 'inf')) - float(x.get('startTime', '0')):
            bad('the step size of the default experiment exceeds its length')
    return out


def describe(path, ver, model):
    root = ET.parse(path).getroot()
    out = ['M\t%d\t%s\t%s' % (ver, model, root.get('guid' if ver == 2 else 'instantiationToken'))]
    f = lambda e, *names: int(any(e.get(n) == 'true' for n in names))
    for tag, k in KINDS.items():
        for e in root.findall(tag):
            out.append('I\t%s\t%s\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%s' % (
                k, e.get('modelIdentifier'), f(e, 'canGetAndSetFMUState', 'canGetAndSetFMUstate'), f(e, 'canSerializeFMUState', 'canSerializeFMUstate'),
                f(e, 'providesDirectionalDerivatives', 'providesDirectionalDerivative'), f(e, 'providesAdjointDerivatives'), f(e, 'hasEventMode'),
                f(e, 'providesIntermediateUpdate'), f(e, 'canReturnEarlyAfterIntermediateUpdate'), f(e, 'canHandleVariableCommunicationStepSize'),
                f(e, 'mightReturnEarlyFromDoStep'), e.get('fixedInternalStepSize', '-')))
    byname, order = {}, []
    for e in root.find('ModelVariables'):
        a = dict(e.attrib)
        if ver == 2:
            t = [c for c in e if c.tag in TY2][0]
            ty = TY2[t.tag]
            a.update({k: v for k, v in t.attrib.items() if k != 'declaredType'})
            starts = [t.get('start')] if t.get('start') is not None else []
            dims = []
        else:
            ty = TY3[e.tag]
            starts = [c.get('value') for c in e.findall('Start')]
            if 'start' in a:
                starts = a['start'].split()
            dims = [('=' + d.get('start')) if d.get('start') else d.get('valueReference') for d in e.findall('Dimension')]
        order.append(int(a['valueReference']))
        byname[a['name']] = a
        out.append('V\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%d' % (
            hexs(a['name']), a['valueReference'], ty, a.get('causality', 'local'), a.get('variability', 'default'), initial(a, starts), ','.join(dims) or '-',
            ','.join(hexs(s) for s in starts) or '-', a.get('min', '-'), a.get('max', '-'), a.get('nominal', '1'), a.get('reinit') == 'true'))
        a['_order'] = len(order)
    ms = root.find('ModelStructure')
    vr = (lambda e: order[int(e.get('index')) - 1]) if ver == 2 else (lambda e: int(e.get('valueReference')))
    ref = (lambda i: order[i - 1]) if ver == 2 else (lambda i: i)
    ders = ms.findall('Derivatives/Unknown') if ver == 2 else ms.findall('ContinuousStateDerivative')
    attr = {int(a['valueReference']): a for a in byname.values()}
    for e in ders:
        d = vr(e)
        out.append('S\t%d\t%d' % (d, ref(int(attr[d]['derivative']))))
    if ver == 2:
        out.append('N\t%s' % root.get('numberOfEventIndicators', '0'))
    else:
        zs = ms.findall('EventIndicator')
        out.append('N\t%d' % len(zs))
        for e in zs:
            out.append('Z\t%d' % vr(e))
    for e in (ms.findall('InitialUnknowns/Unknown') if ver == 2 else ms.findall('InitialUnknown')):
        if e.get('dependencies') is not None:
            out.append('D\t%d\t%s' % (vr(e), ','.join(str(ref(int(x))) for x in e.get('dependencies').split()) or '-'))
    for e in (ms.findall('Outputs/Unknown') if ver == 2 else ms.findall('Output')):
        out.append('O\t%d' % vr(e))
    for tag in ('Derivatives/Unknown', 'Outputs/Unknown') if ver == 2 else ('ContinuousStateDerivative', 'Output', 'EventIndicator'):
        out += dependencies('P', ms.findall(tag), vr, ref)
    for e in root.findall('LogCategories/Category'):
        out.append('L\t%s' % hexs(e.get('name')))
    for a in byname.values():
        if a.get('clocks') and a.get('intervalVariability') is None:
            out.append('W\t%s\t%s' % (a['valueReference'], ','.join(a['clocks'].split())))
        if a.get('clocks') and a.get('intervalVariability') == 'countdown':
            out.append('Q\t%s\t%s' % (a['valueReference'], ','.join(a['clocks'].split())))
    dae = os.path.join(os.path.dirname(path), 'extra', 'org.fmi-standard.fmi-ls-dae', 'fmi-ls-manifest.xml')
    if os.path.exists(dae):
        d = ET.parse(dae).getroot()
        find = lambda tags: d.findall('/'.join('{http://fmi-standard.org/fmi-ls-manifest}' + t for t in tags.split('/')))
        out.append('G\t%s\t%s' % (find('EnableDAE')[0].get('valueReference'), ','.join(e.get('valueReference') for e in find('AlgebraicVariables/AlgebraicVariable'))))
        for tag in ('ContinuousStateDerivative', 'EventIndicator', 'Residual/Formulation'):
            out += dependencies('A', find('ModelStructure/' + tag), vr, ref)
    x = root.find('DefaultExperiment')
    if x is not None:
        out.append('E\t%s\t%s\t%s' % (x.get('startTime', '0'), x.get('stopTime', '-'), x.get('stepSize', '-')))
    ls = os.path.join(os.path.dirname(path), 'extra', 'org.fmi-standard.fmi-ls-ref')
    if os.path.exists(os.path.join(ls, 'fmi-ls-manifest.xml')):
        for e in ET.parse(os.path.join(ls, 'fmi-ls-manifest.xml')).getroot().iter():
            if e.tag.split('}')[-1] == 'Related' and not os.path.exists(os.path.join(ls, e.get('source'))):
                out.append('F\t%s' % hexs(e.get('source')))
    csv = os.path.join(ls, model + '_out.csv')
    if os.path.exists(csv):
        rows = [l.rstrip('\n') for l in open(csv) if l.strip()]
        out.append('C\t' + '\t'.join(hexs(c) for c in rows[0].split(',')))
        for l in rows[1:]:
            out.append('R\t' + '\t'.join(hexs(c) for c in l.split(',')))
    return out


def table(work, flavour):
    out, experiments = [], {}
    for ver in (2, 3):
        base = os.path.join(work, 'fmu%d-%s' % (ver, flavour), 'temp')
        for m in sorted(os.listdir(base)):
            p = os.path.join(base, m, 'modelDescription.xml')
            if os.path.exists(p):
                try:
                    root = ET.parse(p).getroot()
                except ET.ParseError as e:
                    out += ['M\t%d\t%s\t' % (ver, m), 'K\t' + hexs('it is not well-formed: %s' % e)]
                    continue
                wrong = problems(root, ver)
                x = root.find('DefaultExperiment')
                for k in ('startTime', 'stopTime', 'stepSize', 'tolerance'):
                    v = x.get(k) if x is not None else None
                    v = float(v if v is not None else '0' if k == 'startTime' else 'nan')
                    if v == v and experiments.setdefault((m, k), v) != v:
                        wrong.append('%s of the default experiment is %g, but %g in the other version' % (k, v, experiments[m, k]))
                try:
                    out += describe(p, ver, m)
                except (KeyError, IndexError, ValueError):
                    if not wrong:
                        raise
                    out.append('M\t%d\t%s\t' % (ver, m))
                out += ['K\t' + hexs(w) for w in wrong]
    path = os.path.join(work, 'table.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return path

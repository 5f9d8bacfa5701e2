#!/usr/bin/env python3
"""ops.spec -> ops_gen.inc: one adaptor per API function (a call expression) plus its argument descriptors."""
import sys, re
CT = {'d':'double','f':'float','i':'int','b':'bool','c':'char','cat':'sla::Catalogue',
      'vd':'double*','vf':'float*','md':'double(*)[3]','mf':'float(*)[3]',
      'sd':'sla::Spherical<double>','sf':'sla::Spherical<float>','pd':'sla::VectorPV<double>','pf':'sla::VectorPV<float>',
      'qd':'sla::SphericalPV<double>','qf':'sla::SphericalPV<float>','dt':'sla::Date','cr':'sla::ConversionResult',
      'am':'sla::AltazMount','fc':'sla::FitCoeffs','ob':'sla::Observatory','st':'const char*',
      'da':'double*','fa':'float*','ia':'int*','xy':'double(*)[2]'}
PTR = {'vd','vf','md','mf','st','da','fa','ia','xy'}
SCAL = {'d','f','i','b','c','cat'}
def main(spec, out):
    o = open(out, 'w'); rows = []; kinds = []; customs = []
    for line in open(spec):
        line = line.split('#')[0].split()
        if not line: continue
        name = line.pop(0); custom = 'none'
        if line[0].startswith('custom:'): custom = line.pop(0)[7:]
        ret = line.pop(0)
        if custom not in customs: customs.append(custom)
        exprs, descs = [], []
        for i, a in enumerate(line):
            p = a.split('.'); t, m = p[0], p[1]; k = p[2] if len(p) > 2 else 'none'
            if k not in kinds: kinds.append(k)
            if t in PTR:
                c = CT[t]
                if m == 'i':
                    c = {'double*':'const double*','float*':'const float*','int*':'const int*','const char*':'const char*',
                         'double(*)[3]':'const double(*)[3]','float(*)[3]':'const float(*)[3]','double(*)[2]':'const double(*)[2]'}[c]
                exprs.append('(%s) p[%d]' % (c, i))
            else:
                c = CT[t]
                if m == 'i': c = 'const ' + c
                exprs.append('*(%s*) p[%d]' % (c, i))
            byval = 1 if (m == 'v' or (t in SCAL and m == 'i')) else 0
            descs.append('{AT_%s, AM_%s, AK_%s, %d}' % (t, 'i' if m == 'v' else m, k, byval))
        call = 'sla::%s(%s)' % (name, ', '.join(exprs))
        if ret == 'v': body = call + ';'
        elif ret == 'st': body = '*(const char**) ret = %s;' % call
        elif ret == 'i': body = '*(int*) ret = (int) %s;' % call
        else: body = '*(%s*) ret = %s;' % (CT[ret], call)
        o.write('static void ad_%s(void** p, void* ret) { (void) p; (void) ret; %s }\n' % (name, body))
        rows.append('    {"%s", ad_%s, AT_%s, %d, {%s}, CG_%s},\n' % (name, name, 'void' if ret == 'v' else ret, len(descs), ', '.join(descs) or '{AT_void, AM_i, AK_none, 0}', custom))
    o.write('static const FnDesc FN_TABLE[] = {\n' + ''.join(rows) + '};\n')
    o.close()
    h = open(out.replace('.inc', '.h'), 'w')
    h.write('enum ArgType { AT_void, %s };\n' % ', '.join('AT_' + t for t in CT))
    h.write('enum ArgKind { %s };\n' % ', '.join('AK_' + k for k in kinds))
    h.write('enum CustomGen { %s };\n' % ', '.join('CG_' + k for k in customs))
    h.close()
main(sys.argv[1], sys.argv[2])

"""Stand-ins for the external packages the importers and exporters need:
toolbox, odintxt and delphin.itsdb. install() puts them where import finds
them."""
import ast, re, sys, types, warnings

RECORD = []     # calls of delphin.itsdb.make_skeleton


class ToolboxError(Exception): pass
class ToolboxWarning(Warning): pass


def read_toolbox_file(lines, strip=True):
    """(marker, text or None) pairs of marked lines; unmarked ones continue
    the text."""
    cur = None
    for line in lines:
        m = re.match(r'(\\\S+)(?: (.*))?$', line, re.S)
        if m:
            if cur: yield tuple(cur)
            cur = [m.group(1), m.group(2) if m.group(2) is not None and m.group(2).strip() else None]
        elif cur and line.strip():
            cur[1] = (cur[1] or '') + '\n' + line
    if cur: yield tuple(cur)


def records(pairs, keys):
    """(context, data) of the fields up to the next record marker."""
    keys = list(keys)
    context = dict((k, None) for k in keys)
    data, seen = [], False
    for mkr, val in pairs:
        if mkr in keys:
            if data: yield dict(context), iter(data)
            data = []
            for k in keys[keys.index(mkr) + 1:]: context[k] = None
            context[mkr] = val.strip() if val else val
        else:
            data.append((mkr, val))
    if data: yield dict(context), iter(data)


def normalize_record(pairs, tiers, strip=True):
    """One line per field; the lines of interlinear blocks are appended so
    that their columns stay aligned."""
    pairs = list(pairs)
    order, val, block = [], {}, {}
    def flush():
        if not block: return
        base = max([len(v or '') for m, v in val.items() if m in tiers] or [0])
        for m, v in block.items():
            if v is None: continue
            old = val.get(m)
            val[m] = v if not base else (old or '').ljust(base) + ' ' + v if old is not None or base else v
        block.clear()
    for m, v in pairs:
        if m not in order: order.append(m); val.setdefault(m, None)
        if m in tiers:
            if m in block: flush()
            block[m] = v
        elif v is not None:
            val[m] = v if val[m] is None else val[m] + ' ' + v
    flush()
    width = max([len(val[m] or '') for m in order if m in tiers] or [0])
    for m in order:
        v = val[m]
        if v is not None: v = v.strip() if strip else v.ljust(width) if m in tiers else v
        yield m, v


def align_fields(pairs, alignments, tokenizers=None, errors='strict'):
    """(marker, [(target token, tokens)]) by column."""
    if errors != 'ratio': raise ToolboxError('unexpected error recovery %r' % (errors,))
    prev = {}
    for m, v in pairs:
        if m == '\\warn': warnings.warn('misaligned', ToolboxWarning)
        if m == '\\err': raise ToolboxError('cannot align')
        if v is None:
            yield m, [(None, None)]
            continue
        toks = [(t.start(), t.group()) for t in re.finditer(r'\S+', v)]
        if m in alignments and alignments[m] in prev:
            tgt = prev[alignments[m]]
            out = [(t, []) for _, t in tgt]
            for s, t in toks:
                k = max([i for i, (b, _) in enumerate(tgt) if b <= s] or [-1])
                if k < 0: raise ToolboxError('token before its target')
                out[k][1].append(t)
            yield m, out
        elif m in alignments or m in alignments.values():
            yield m, [(v.rstrip(), [t for _, t in toks])]
        else:
            yield m, [(None, [v.strip()])]
        prev[m] = toks


def odin_blocks(lines):
    """Blocks, given as lines of Python literals."""
    for line in lines:
        if line.strip(): yield ast.literal_eval(line)


def make_skeleton(outpath, relations, rows, *args, **kw):
    RECORD.append(dict(out=outpath, relations=relations, rows=[dict(r) for r in rows]))


def install():
    t = types.ModuleType('toolbox')
    for f in (read_toolbox_file, records, normalize_record, align_fields): setattr(t, f.__name__, f)
    t.ToolboxError, t.ToolboxWarning = ToolboxError, ToolboxWarning
    o = types.ModuleType('odintxt'); o.odin_blocks = odin_blocks
    d = types.ModuleType('delphin'); d.__path__ = []
    i = types.ModuleType('delphin.itsdb'); i.make_skeleton = make_skeleton
    d.itsdb = i
    sys.modules.update({'toolbox': t, 'odintxt': o, 'delphin': d, 'delphin.itsdb': i})


install()

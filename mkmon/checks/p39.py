"""Notebooks made from markdown hold its text and code, in order."""
import io
import json
import os
import subprocess
import sys
import warnings
from mkmon import gen

ID = 'P39'
LEVEL = 'exploration'
QUICK_N, THOROUGH_N = 30000, 400000
RULE = ('Random markdown files of 0-30 lines: text, headings, links, blank lines, numbered code lines with indentation, quotes, backslashes, tabs, other control characters and other scripts, with and without an end of the last line, are '
        'made into notebooks by the conversion the command runs (and some by the command itself); the notebook is parsed as JSON and compared cell by cell with a reading of the lines. Non-trivial: at least one cell of code and one of text.')
ASSUMPTIONS = ['Blank lines at the ends of a cell are open.', 'A line that starts with a number in brackets is code, as the command documents.']
REQUIRED = ['code_cells', 'text_cells', 'backslash', 'quotes', 'tabs', 'no_last_end', 'blank_runs', 'empty_file', 'commands', 'adjacent_code', 'links']


def lines(rng, ctx):
    out = []
    num = rng.randint(0, 3)
    hard = ['"quoted"', "it's", 'C:\\new\\text', '\\alpha \\" \\\\', 'tab\there', 'bell\x07', 'naïve 漢字', '{0} {{}} %s', '</script>', '\u2028sep', '# not a heading', 'x' * 300, '\\', '"', '",', '\\n']
    for _ in range(rng.randint(0, 30) if rng.random() < 0.95 else 0):
        r = rng.random()
        if r < 0.3:
            num = num if rng.random() < 0.6 else rng.choice([len(out), '', 12, 1])
            out.append('[{}]{}'.format(num, rng.choice(['', ' ', '    ', '\t']) + rng.choice(['import x', 'print("a")', 'x = [1][0]', '', 'if a: # c'] + hard)))
        elif r < 0.5:
            out.append('')
        elif r < 0.55:
            out.append(rng.choice(['[text](http://x.y)', ' [1] is indented', '[a1] no code', '![](p.png)']))
            ctx.count('links')
        else:
            out.append(rng.choice(['', '# ', '+ ', '> ', '  ']) + rng.choice(hard + [gen.words(rng, 1, 6)] * 6))
    return out


def cells(ls):
    """[(kind, lines)] by reading the lines one by one"""
    out = []
    blanks = 0
    key = None
    for l in ls:
        n = l[1:l.index(']')] if l.startswith('[') and ']' in l else None
        if n is not None and all(c in '0123456789' for c in n):
            if key != ('code', n):
                out.append(['code', []])
            key = ('code', n)
            out[-1][1].append(l[len(n) + 2:])
        else:
            if key != ('markdown',):
                out.append(['markdown', []])
            key = ('markdown',)
            out[-1][1].append(l)
    return out


def trim(ls):
    ls = list(ls)
    while ls and ls[0] == '':
        ls.pop(0)
    while ls and ls[-1] == '':
        ls.pop()
    return ls


def judge(ctx, text, ls, what):
    try:
        nb = json.loads(text)
    except ValueError as e:
        ctx.fail('not-json', '{}: {}: {!r}'.format(what, e, text[:300]))
        return
    ctx.check(nb['nbformat'] == 4 and isinstance(nb['metadata'], dict), 'format', what)
    got = []
    last = None
    for c in nb['cells']:
        ok = c['cell_type'] in ('code', 'markdown') and isinstance(c['source'], list) and all(isinstance(x, str) for x in c['source']) and isinstance(c['metadata'], dict)
        if c['cell_type'] == 'code':
            ok = ok and c['outputs'] == [] and c['execution_count'] is None
        ctx.check(ok, 'cell', what)
        ctx.check(all(x.endswith('\n') and x.count('\n') == 1 for x in c['source'][:-1]), 'line-ends', what)
        src = trim(''.join(c['source']).split('\n'))
        if src:
            got.append([c['cell_type'], src])
    # text is cut where several blank lines follow each other, code never
    want = []
    for kind, ws in cells(ls):
        if kind == 'code':
            if trim(ws):
                want.append([kind, trim(ws)])
        else:
            run = []
            parts = []
            for i, l in enumerate(ws):
                run.append(l)
                if run[-3:] == ['', '', ''] or len(run) > 2 and l == '' and run[-2] == '':
                    parts.append(run)
                    run = []
            parts.append(run)
            want += [[kind, trim(p)] for p in parts if trim(p)]
    ctx.eq([c for c in got if c[0] == 'code'], [c for c in want if c[0] == 'code'], 'code', what)
    flat = lambda cs: [(k, l) for k, s in cs for l in s if l]
    ctx.eq(flat(got), flat(want), 'lines', what)
    ctx.eq(got, want, 'cells', what)
    ctx.count('code_cells', sum(c[0] == 'code' for c in want))
    ctx.count('text_cells', sum(c[0] == 'markdown' for c in want))
    ctx.count('adjacent_code', int(any(a[0] == b[0] == 'code' for a, b in zip(want, want[1:]))))
    if {c[0] for c in want} == {'code', 'markdown'}:
        ctx.sig(ls)
        ctx.sample({'lines': len(ls), 'cells': [c[0] for c in want]})


def case(rng, ctx):
    warnings.simplefilter('ignore')
    from metaknowledge.bin import metaknowledgeMdToNb as md
    ls = lines(rng, ctx)
    end = rng.random() < 0.7 or not ls or ls[-1] == ''
    text = '\n'.join(ls) + ('\n' if end and ls else '')
    ctx.count('backslash', int('\\' in text))
    ctx.count('quotes', int('"' in text))
    ctx.count('tabs', int('\t' in text))
    ctx.count('no_last_end', int(not end))
    ctx.count('blank_runs', int('\n\n\n' in text))
    ctx.count('empty_file', int(not ls))
    if rng.random() < 0.9:
        judge(ctx, md.convertString(io.StringIO(text)), ls, 'conversion of {!r}'.format(text[:300]))
        return
    ctx.count('commands')
    names = rng.sample(['a.md', 'notes.txt', 'b c.md', 'naïve.md', 'x.y.md', 'd/e.md'], rng.randint(1, 3))
    os.makedirs('d')
    texts = {}
    for n in names:
        texts[n] = ls if n == names[0] else lines(rng, ctx)
        ctx.write(n, '\n'.join(texts[n]) + ('\n' if texts[n] else ''))
    old = sys.argv
    sys.argv = ['metaknowledge-mdToNb'] + names
    try:
        md.mkMdToNb()
    finally:
        sys.argv = old
    ctx.eq(sorted(os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs), sorted(names + [os.path.splitext(n)[0] + '.ipynb' for n in names]), 'files')
    for n in names:
        ctx.eq(ctx.read(n).decode(), '\n'.join(texts[n]) + ('\n' if texts[n] else ''), 'source-changed')
        judge(ctx, ctx.read(os.path.splitext(n)[0] + '.ipynb').decode('utf-8'), texts[n], 'command for {!r}'.format(n))

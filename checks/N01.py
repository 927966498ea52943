"""Presets of the wikitext modes."""
import common
import guard
from interp import Interp, State

LEVEL = 'other'
TECHNIQUE = 'path-sensitive evaluation of the settings constructor for each mode'
PROP = dict(
    title='Each wikitext mode enables exactly the features documented for it',
    statement='WikitextSettings::from_mode enables page syntax for pages, drafts and lists only, true ids for pages '
              'only, local paths for pages, drafts and lists only, and include compatibility and user id isolation '
              'for no mode; it keeps the given mode and layout and uses the default interwiki table.',
    quant='every wikitext mode and layout',
    over=['configurations'],
    why='the tests render in page mode almost only, so a preset flipped for drafts, posts, messages or lists shows in none',
    files=['src/settings/mod.rs'],
    mechanism=[('WikitextSettings::from_mode', 'src/settings/mod.rs')],
    note='Exhaustive over the modes; a mode added later is reported until the table knows it.',
)
RULE = 'every path of from_mode, evaluated once per mode variant, returns the settings of the table'
EXPLANATION = """
Interprets WikitextSettings::from_mode once per variant of WikitextMode (layout unknown) and compares each field of
every returned value with the documented preset.
"""
FLAGS = ['enable_page_syntax', 'use_include_compatibility', 'use_true_ids', 'isolate_user_ids', 'allow_local_paths']
TABLE = {'Page': (True, False, True, False, True), 'Draft': (True, False, False, False, True),
         'ForumPost': (False, False, False, False, False), 'DirectMessage': (False, False, False, False, False),
         'List': (True, False, False, False, True)}
ADT = 'settings::WikitextSettings'
MODE = 'settings::WikitextMode'


def check(ctx):
    P = ctx.P
    b = P.bodies.get('settings::WikitextSettings::from_mode')
    if not ctx.require(b is not None and b.argc == 2, 'from_mode', 'settings constructor not found'):
        return
    names = [v['n'] for v in P.adts[ADT]['variants'][0]['fields']]
    inl = guard.inline_small(P, b, limit=80)
    for mode in [v['n'] for v in P.adts[MODE]['variants']]:
        ctx.count('modes', 1)
        if not ctx.require(mode in TABLE, 'mode:' + mode, 'mode %s has no documented preset' % mode, b.file):
            continue
        rets = []

        class C(guard.GClient):
            max_rec = 3

            def on_return(self, ip, fr, val, st):
                if fr.depth == 0:
                    rets.append((val, st))
        arg = ('e', MODE, mode, ())
        ip = Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('arg',)))
        ip.run(b, [arg, ('sym', 'arg2')], State())
        ctx.require(bool(rets), 'returns:' + mode, 'from_mode never returns for %s' % mode)
        for val, st in rets:
            def field(n):
                return val[2][names.index(n)] if val[0] == 'st' and val[1] == ADT else None
            for f, want in zip(FLAGS, TABLE[mode]):
                v = field(f)
                got = v[2] if v and v[0] == 'c' else guard.fact(st, v) if v else None
                ctx.require(got is not None and bool(got) == want, '%s:%s' % (mode, f), 'from_mode(%s) sets %s to %s, documented '
                            'is %s' % (mode, f, got, want), b.file, st.path())
            ctx.require(field('mode') == arg or False,
                        mode + ':mode', 'from_mode(%s) stores another mode' % mode, b.file)
            ctx.require(field('layout') == ('sym', 'arg2'), mode + ':layout', 'from_mode(%s) does not keep the layout' % mode, b.file)
            ctx.require('DEFAULT_INTERWIKI' in str(field('interwiki')), mode + ':interwiki',
                        'from_mode(%s) does not use the default interwiki table' % mode, b.file)
    ctx.floor('modes', 5)

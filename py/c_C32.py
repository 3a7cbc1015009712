"""C32: generated argument lists and working directories."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e

WORDS = ('', 'deck', 'deck.in', 'deck.INI', 'deck.ini.txt', 'ini', '.in', '-x', '--help', '-v', 'help', 'deck.ini ', 'a b', '-', '--', 'deck.txt', '\xe9', '%s%n', 'deck.inii', 'deck.ini.bak', 'my.ini.old', 'deck.ini~', 'deckini', 'x.Ini', '-help', 'h', '/')


def small_deck(g):
    f, reach, place, limit = weak_field(g, ('static', 'plane'))
    return Deck(f, [Source(number=g.integer(1, 3), e1=g.real(5, 20), pos=place)], [Hist('h', 'Electron', 'Energy', 0, 5, 0, 50)], dt=limit, steps=g.integer(1, 5), tracking=g.coin(),
                model=g.pick(MODELS), out=g.pick(('out.h5', 'My.h5')))


def tree(d):
    out = {}
    for top, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(top, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read() if os.path.isfile(p) else None
        for x in dirs:
            out[os.path.relpath(os.path.join(top, x), d) + '/'] = None
    return out


def word(g):
    k = g.draw(3)
    if k == 0:
        return g.pick(WORDS)
    if k == 1:
        return ''.join(g.pick('abcini.-_/ X0\\') for _ in range(g.draw(12)))
    if k == 2:
        return 'x' * g.integer(1, 5000) + g.pick(('', '.in', '.ini '))
    return g.pick(('deck.ini', '-h', 'deck.ini'))


def check_refused(r, before, d):
    require(not r.timeout, 'the program does not end')
    require(r.code > 0, 'misuse ends with status', r.code)
    require(r.err.strip() or r.out.strip(), 'misuse is refused without a word')
    require(tree(d) == before, 'misuse changes files:', sorted(set(tree(d)) ^ set(before)))


@prop(1500, 15000, 'always')
def arguments(g):
    """anything but one name of an .ini file"""
    d = scratch()
    open(d + '/deck.ini', 'w').write(small_deck(g).text())
    open(d + '/deck.txt', 'w').write(small_deck(g).text())
    os.mkdir(d + '/sub')
    n = g.pick((0, 1, 1, 1, 2, 3, 8))
    args = [word(g) for _ in range(n)]
    if g.chance(5):
        args = [g.pick(('deck.ini', 'x'))] * g.integer(2, 300)
    args = [a.replace('\0', '') for a in args]
    if len(args) == 1 and args[0] and '/' not in args[0] and not args[0].endswith('.ini') and g.coin():
        # a usable deck, under a name that is not one of an .ini file
        try:
            with open(os.path.join(d, args[0]), 'x') as f:
                f.write(small_deck(g).text())
            g.label('a deck by another name')
        except (OSError, ValueError):
            pass
    before = tree(d)
    g.note('arguments', [a[:60] for a in args])
    if len(args) == 1 and args[0].endswith('.ini') and os.path.exists(os.path.join(d, args[0])):
        raise Discard
    r = e2e.execute(args, d)
    if args == ['-h']:
        require(not r.timeout and r.code >= 0 and r.out.strip(), 'no help')
        require(tree(d) == before, 'asking for help changes files')
        g.label('help')
    else:
        check_refused(r, before, d)
        require(r.err.strip() or args and args[0].endswith('.ini'), 'there is no message on the error stream')
        g.label('no argument' if not args else 'one' if len(args) == 1 else 'several')
    g.nontrivial()


VITAL = {'time_step', 'time_end', 'units'}


@prop(400, 4000, 'always')
def unusable_files(g):
    """an .ini name without a usable file behind it"""
    d, name = scratch(), g.pick(('deck.ini', 'a.ini', 'sub/x.ini', '.ini', 'a b.ini', '-h.ini'))
    os.mkdir(d + '/sub')
    what, text = g.draw(5), ''
    full = os.path.join(d, name)
    if what == 1:
        os.mkdir(full)
    elif what == 2:
        open(full, 'w').write(g.pick(('', '\n', '; nothing\n', '[General]\n')))
    elif what == 3:
        deck = small_deck(g)
        lines = deck.text().split('\n')
        drop = {k for k in VITAL if g.coin()} or {g.pick(sorted(VITAL))}
        text = '\n'.join(l for l in lines if l.split('=')[0].strip() not in drop)
        g.note('dropped', sorted(drop))
        open(full, 'w').write(text)
    elif what == 4:
        text = small_deck(g).text().replace('[General]', g.pick(('[Genera]', '', '[Particles]')))
        open(full, 'w').write(text)
    elif what == 5:
        os.symlink(g.pick(('missing.ini', name)), full)
    g.note('kind', what)
    g.note('name', name)
    before = tree(d)
    r = e2e.execute([name], d)
    require(not r.timeout, 'the program does not end')
    require(r.code > 0, 'an unusable input file', name, 'ends with status', r.code)
    require((r.err + r.out).strip(), 'an unusable input file is refused without a word')
    new = set(tree(d)) - set(before)
    require(new <= {'input-check.txt'}, 'files written in spite of the refusal:', sorted(new))
    g.label(('missing', 'directory', 'empty', 'no vital entry', 'no General', 'dangling link')[what])
    g.nontrivial()


@prop(400, 4000, 'always')
def places(g):
    """valid decks by any path: output goes to the current directory only"""
    d = scratch()
    os.makedirs(d + '/work/sub')
    os.makedirs(d + '/other dir')
    where = g.pick(('', 'sub/', '../', '../other dir/', d + '/other dir/', './', 'sub/../sub/'))
    base = g.pick(('deck.ini', '.ini', 'a.b.ini', 'My deck.ini', 'x.ini.ini', '-h.ini'))
    deck = small_deck(g)
    name = where + base
    open(os.path.join(d, 'work', name), 'w').write(deck.text())
    g.note('name', name.replace(d, 'DIR'))
    before = tree(d)
    r = e2e.execute([name], d + '/work')
    require(not r.timeout and r.code == 0, 'a valid deck ends with status', r.code, r.err[-300:])
    after = tree(d)
    new = set(after) - set(before)
    require(new == {'work/' + deck.out, 'work/input-check.txt'}, 'new files:', sorted(new))
    require(all(after[k] == before[k] for k in before), 'an existing file was changed')
    require(not r.err.strip(), 'a valid deck gives the message', r.err[-300:])
    e2e.read_h5(os.path.join(d, 'work', deck.out))
    # a second run in the same place replaces the output
    if g.coin():
        r = e2e.execute([name], d + '/work')
        require(not r.timeout and r.code == 0, 'the second run ends with status', r.code, r.err[-300:])
        require(set(tree(d)) == set(after), 'the second run leaves other files')
        e2e.read_h5(os.path.join(d, 'work', deck.out))
        g.label('twice')
    g.nontrivial()


if __name__ == '__main__':
    main(lambda: e2e.setup('opt'))

"""Which analyses decide which property."""
from . import serial, lookup, stacks, constraints, lexer, textfn, split, filterexpr, filtering


def J03(rep):
    serial.run(rep, lambda k, st, c: k in ('nesting', 'position', 'path'))


def J04(rep):
    serial.run(rep, lambda k, st, c: k in ('counter', 'path'))


def J05(rep):
    serial.run(rep, lambda k, st, c: k in ('counter', 'position', 'record', 'match', 'learn', 'text', 'path') and serial.ranged(st, c.L))


def J06(rep):
    serial.run(rep, lambda k, st, c: k in ('record', 'text', 'match', 'path'))


def J20(rep):
    constraints.run(rep)
    serial.run(rep, lambda k, st, c: k in ('learn',))


def J07(rep):
    lookup.run(rep)


def J17(rep):
    split.run(rep)


def J21(rep):
    stacks.run(rep)


def J01(rep):
    lexer.run(rep, lambda k: k != 'text')


def J02(rep):
    textfn.run(rep)
    lexer.run(rep, lambda k: k == 'text')
    serial.run(rep, lambda k, st, c: k == 'text')


def J11(rep):
    filterexpr.run(rep)


def J13(rep):
    filtering.run(rep)


def J14(rep):
    from . import threads
    threads.run(rep)


def J18(rep):
    from . import lifecycle, resume
    lifecycle.run(rep, {'resume', 'repeat'})
    resume.run(rep)


def J19(rep):
    from . import lifecycle, reference
    lifecycle.run(rep, {'mem'})
    serial.run(rep, lambda k, st, c: k in ('memory', 'leak'))
    filtering.run(rep, True)
    filterexpr.run(rep, True)
    reference.run(rep, values=False)
    split.run(rep, {'use', 'file'})


def J12(rep):
    from . import grammar, reference
    grammar.run(rep)
    reference.run(rep, memory=False)


def J08(rep):
    from . import builder
    builder.run(rep, {'J08'})


def J10(rep):
    from . import builder
    builder.run(rep, {'J10'})


def J15(rep):
    from . import worker
    worker.run(rep)


def J16(rep):
    from . import merge
    merge.run(rep)

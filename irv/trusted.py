"""What the proofs rest on."""


def base(p, contracts):
    return ['irv: LLVM IR parser, symbolic executor, loop rule (this directory)', 'z3', 'clang++-18 front end',
            'memory model: a pointer computed from one object never addresses another object',
            'contracts assumed on library externals: see external_contracts_used'] + list(getattr(p, 'trusted', ()))


def assumptions(p, contracts):
    a = ['the input line is NUL terminated text shorter than 2^60 bytes; the delimiter contains no NUL',
         'memory allocation succeeds; std::vector growth keeps the elements (iterator invalidation is not modelled)',
         'template parameters are checked for the instantiations listed in coverage.tasks; the proof is per instantiation',
         'machine integers are modelled as bounded integers with overflow checked (signed) or wrapped (unsigned)',
         'IR is generated at -O0; the optimiser and code generation are trusted']
    if p.note:
        a.append(p.note)
    return a

#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (source of both: this file)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


SP = ['include/ss/splitter.hpp', 'include/ss/setup.hpp']
p('P01', 'Splitting yields exactly the fields the CSV dialect defines',
  'For every line, every non-empty delimiter and every combination of the quote, escape, trim and multiline options, splitting a well-formed line yields exactly the fields the dialect defines, in order: their number, their lengths and every character of them. Fields are separated by the delimiter where it is neither quoted nor escaped; spacing configured for trimming is dropped outside quotes; an enclosing pair of quotes is dropped, a doubled quote inside quotes stands for one quote, and an escape character stands for the character after it.',
  ['inputs', 'configurations'], 'all lines (any length, any bytes), all non-empty delimiters of any length, all combinations of quote/escape/trim_left/trim_right/multiline/error mode',
  'tests sample some short generated lines per option set; the state (in-place shifting of escaped text, spacing look-ahead, doubled quotes) depends on unbounded combinations of characters',
  SP, [('in-place splitting and shifting', 'include/ss/splitter.hpp split_impl, read_normal, read_quoted, shift_and_set_current'), ('option matching', 'include/ss/setup.hpp matcher')],
  ['ss::converter::split / get_split_data()', 'ss::parser::get_next<...>'])
p('P02', 'Malformed lines are reported, well-formed lines are not',
  'Splitting reports an error exactly for lines that are malformed in the dialect: a quote closed by something other than spacing followed by a delimiter or the end of the line, a quoted field that never closes, or an escape character with nothing after it (the last two are continuations rather than errors when multiline is enabled), and for an empty delimiter. The report uses the configured error mode, its text names the kind of error and for a misplaced quote its position in the line, and an error of one line never affects the next line.',
  ['inputs', 'configurations', 'histories'], 'all lines, delimiters and option combinations, all three error modes, any earlier line split by the same object',
  'tests check a handful of malformed lines per option set; that no well-formed line is rejected and no malformed one accepted quantifies over all lines',
  SP, [('error handlers', 'include/ss/splitter.hpp handle_error_*'), ('clear_error', 'include/ss/splitter.hpp split_impl_select_delim')],
  ['ss::converter::valid(), error_msg()', 'ss::exception'])
p('P03', 'Splitting stays inside the line and always ends',
  'Splitting any NUL terminated line with any delimiter terminates, reads and writes no memory outside the line and the objects involved, writes nothing when neither quoting nor escaping is enabled, and performs no undefined arithmetic. This holds for malformed lines and for any state the splitter was left in by earlier lines.',
  ['inputs', 'configurations', 'histories'], 'all lines, delimiters, option combinations and earlier states of the splitter',
  'sanitizer runs of the tests only see the sampled lines; look-ahead past the terminator needs particular endings of the line',
  SP, [('scanning loops', 'include/ss/splitter.hpp trim_left_if_enabled, trim_right_if_enabled, match_delimiter, read_normal, read_quoted'), ('shifting', 'include/ss/splitter.hpp shift_and_set_current')],
  ['address/undefined behaviour sanitizer on ss::converter::split', 'termination of split'])

exec(open(os.path.join(HERE, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_props.py')) else None

NA = globals().get('NA', [])
TECH = 'contract-based deductive verification: symbolic execution of the LLVM IR of the real headers with inferred loop invariants and contracts, every obligation discharged by z3'
NOTES = dict({
    'P01': 'Proved for all lines, delimiters and splitter states, per instantiation of the options listed in the evidence. Trusted: clang front end, irv, z3, contracts of strncmp, memmove, std::vector and std::string.',
    'P02': 'As P01; position and text of messages proved for the string mode; exceptions are thrown exactly on malformed lines (their text is checked by the bounded search only).',
    'P03': 'Every access, pointer computation and signed operation in the splitter is an obligation; every loop has a proved variant. Memory model: objects do not overlap; allocation succeeds.'},
    **globals().get('MORE_NOTES', {}))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            assert x['statement'].count('. ') <= 2, x['id']
            f.write(json.dumps(x) + '\n')
    na = {x['property'] for x in NA}
    checks = [dict(property=x['id'], quick_cmd='python3-vt check.py %s' % x['id'],
                   thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % x['id'],
                   evidence_file='evidence/%s.json' % x['id'], technique=TECH, level='proof',
                   level_note=NOTES.get(x['id'], '')) for x in P if x['id'] not in na]
    m = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())" && clang++-18 --version',
             checks=checks, not_applicable=NA,
             notes='The deciding step of every check is the verifier in irv/; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def design():
    t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
    na = {x['property']: x['reason'] for x in NA}
    rows = []
    for x in P:
        d = DECIDE.get(x['id'], '')
        rows.append('### %s %s\n\n%s\n' % (x['id'], x['title'], ('Not applicable: ' + na[x['id']]) if x['id'] in na else d))
    seeds = []
    sd = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.append('* `%s` (%s): %s. %s' % (s, m['property'], m['what_it_breaks'], CAUGHT.get(s, '')))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(t.replace('@PROPS@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(seeds)))


DECIDE = dict({
    'P01': '`split.py`: a specification machine reads the line with a position, the source position of every field character and a'
           ' buffer shift; it is run in lock step with `splitter::split` (ghost state advanced at the loop heads), and the fields'
           ' stored are compared with it: number, begin, end and an arbitrary character of an arbitrary field. 32 instantiations'
           ' quick (all 15 option combinations and multiline, one error mode each, all modes for the richest), all 84 thorough;'
           ' about 100 s on 8 cores. Unbounded in line length, number of fields, delimiter length.',
    'P02': 'Same tasks; obligations: `valid()` exactly when the machine accepts, exceptions exactly on its errors, message text'
           ' and position (string mode), `unterminated_quote()` exactly when a quote is open, from any earlier state of the object.',
    'P03': 'Same tasks; obligations: every access, pointer computation and signed operation, and a variant for every loop.',
}, **globals().get('MORE_DECIDE', {}))
CAUGHT = dict({'long-delimiter': 'Caught by P01 (strncmp contract, input found).', 'quote-position': 'Caught by P02 (input found).',
               'overlapping-copy': 'Caught by P03 (memcpy precondition, input found).', 'spacing-before-escape': 'Caught by P01 (input found).'},
              **globals().get('MORE_CAUGHT', {}))
main()
design()

PA = ['include/ss/parser.hpp', 'include/ss/common.hpp']
BIN = 'all inputs (any length, any bytes, with and without a final newline), all option combinations'
p('P06', 'Reading covers the input: every physical line once, in order, complete',
  'The rows a parser reads cover the input: every byte of a file or buffer belongs to exactly one physical line (up to and including its newline, or up to the end of the input), the physical lines are read in order, each exactly once and complete whatever its length, and a last line without a newline is read like any other. The end of the input is reported only when all of it has been read, and running out of memory is reported as std::bad_alloc, never as the end.',
  ['inputs', 'configurations', 'fault'], BIN + ', allocation failures while reading',
  'buffer growth, newline search and end detection depend on the length and position of every line relative to buffer sizes; tests use a few small files',
  PA, [('line reading', 'include/ss/parser.hpp reader::read_next, get_next_line_from_file/buffer'), ('getline', 'include/ss/common.hpp get_line_buffer, get_line_file')],
  ['ss::parser::get_next', 'ss::parser::eof', 'ss::get_line_buffer'])
p('P07', 'Exactly the line ending is removed from a row, LF or CRLF',
  'The text of a row is the text of its physical line without its line ending: a final LF and a CR directly before it are removed, and nothing else is: other CR characters, also at the end of an input without a newline, belong to the row. Each line is treated by its own ending, whatever the other lines end in.',
  ['inputs', 'configurations'], BIN, 'all lines end alike in most tests; a CR at the start of a line, alone, or before the end of the input is not sampled',
  PA, [('removal of the line ending', 'include/ss/parser.hpp reader::read_next, remove_eol')],
  ['fields of get_next', 'ss::parser::raw_header'])
p('P08', 'Multiline rows join exactly the lines they continue on, up to the limit',
  'With multiline a row whose last escape character precedes the line ending, or which ends inside a quoted field, continues on the next physical line: the text of the row is the text of its lines joined by the line endings they really have, and it is split as a whole. No line is joined to a row which is complete, and a row never takes more than the configured number of additional lines. At the limit, or when the input ends first, the row is reported as the kind of error it is (multiline limit reached, unterminated escape, unterminated quote), in the configured error mode, and stays invalid.',
  ['inputs', 'configurations', 'histories'], BIN + ' with multiline or multiline_restricted and quote and/or escape',
  'the number of lines joined, the mixture of quotes and escapes at line ends and the buffer growth are unbounded; tests join a few lines',
  PA, [('joining', 'include/ss/parser.hpp reader::parse, append_next_line_to_buffer, concat_buffer, undo_remove_eol, escaped_eol, unterminated_quote, multiline_limit_reached')],
  ['fields of get_next', 'ss::parser::valid/error_msg', 'ss::exception'])
p('P09', 'line() and position() always name the physical place of the waiting row',
  'At any time position() is the offset in the input at which the row which is read next begins (the size of the input when there is none), line() is the number of physical lines read before it, and the line number in the message of a failed row is the number of the last physical line of that row. Skipped empty lines, lines joined into multiline rows, ignored rows, failed rows and long lines all count; line() and position() change nothing and never move back.',
  ['inputs', 'configurations', 'histories'], BIN + ', all sequences of reads',
  'the counters are updated at several places along read, join, swap and end-of-file paths; tests compare them for a few files',
  PA, [('counters', 'include/ss/parser.hpp reader::line_number_, chars_read_, curr_char_'), ('line of an error', 'include/ss/parser.hpp row_line_, handle_error_*')],
  ['ss::parser::line', 'ss::parser::position', 'ss::parser::error_msg'])
p('P10', 'Parsing a file and parsing a buffer with the same bytes are the same',
  'A parser constructed from a file and one constructed from a buffer which holds the bytes of that file yield the same rows, errors, line numbers, positions and end of input for every sequence of operations; only the name in messages differs. This does not depend on line lengths, on the state of errno, or on whether the last line ends in a newline.',
  ['inputs', 'configurations', 'histories'], BIN + ', both sources',
  'the two sources are read by different code with different buffer growth and end detection; tests compare them on small generated files only',
  PA, [('two sources', 'include/ss/parser.hpp reader::get_next_line_from_file, get_next_line_from_buffer'), ('line functions', 'include/ss/common.hpp get_line_buffer, get_line_file')],
  ['ss::parser over a file name and over a char buffer'])
p('P16', 'A failed row is reported for itself only and never loses or repeats a row',
  'Every get_next consumes exactly one row: it parses and converts the waiting row and reads the one after it, also when splitting or conversion fails, in every error mode, so a failed row is reported for that row only and the following rows are unaffected. eof() is true exactly when no row is waiting, also after ignore_next; reading at the end returns default values, reports the end of file every time and changes nothing else. After a successful read the parser is valid and error_msg() is empty, after a failed one the message names the file, the line and the cause.',
  ['inputs', 'configurations', 'histories'], 'all sequences of get_next and ignore_next over all inputs, all error modes',
  'the parser prefetches one row and swaps two converters and two buffers, so state of one row can leak into another after particular sequences of failures',
  PA + ['include/ss/converter.hpp'], [('row protocol', 'include/ss/parser.hpp get_next, ignore_next, read_line, reader::update, reader::read_next'), ('error state', 'include/ss/parser.hpp clear_error, handle_error_*')],
  ['ss::parser::get_next', 'ss::parser::eof', 'ss::parser::valid', 'ss::parser::ignore_next'])
p('P22', 'ignore_empty skips exactly the empty lines, without it none is skipped',
  'With ignore_empty the rows read are exactly the physical lines which are not empty (a line which consists of nothing but its line ending is empty, a line of spaces is not), in order, wherever and however many empty lines there are, also before the header, and at the end of the input. Without it every physical line is a row.',
  ['inputs', 'configurations'], BIN + ', with and without ignore_empty',
  'runs of empty lines with mixed endings at the start, the end and between rows are unbounded; the tests skip a few LF lines',
  PA, [('skipping', 'include/ss/parser.hpp reader::read_next')], ['rows of get_next', 'ss::parser::eof', 'ss::parser::raw_header'])

RDN = 'Proved for all inputs and reader states per instantiation listed in the evidence; getline(3), realloc/malloc (may fail), std::string and std::vector by assumed contracts.'
MORE_NOTES = {
    'P06': RDN, 'P07': RDN,
    'P08': RDN + ' split and resplit enter through contracts; the fields of joined rows are the subject of P01 and P04.',
    'P09': RDN, 'P10': 'Both sources satisfy the same postconditions; an alarm is raised when the obligations of one source fail and those of the same task over the other hold.',
    'P16': RDN + ' reader::parse, reader::read_next and converter::convert enter get_next through contracts.',
    'P22': RDN}
MORE_DECIDE = {
    'P06': '`parser.py`: `reader::read_next` is verified from an arbitrary reader state (first call, any buffers, any position) against'
           ' the ghost function nl(t), the end of the physical line at t; `reader.py` proves the contract of `get_line_buffer` it uses'
           ' (both branches of every allocation), `row.py` the constructors. Loops by inferred invariants, all lengths.',
    'P07': 'Same tasks; obligations on the size, the terminator and the remembered ending of the row.',
    'P08': '`multiline.py`: the loops of `reader::parse` are verified against ghost text (the row as it should be after each joined'
           ' line): calls of split/resplit must get exactly that text, lines may be joined only while the specification says the row'
           ' continues, at most `limit` times, and each exit must report its own kind of error. Unbounded in lines and lengths.',
    'P09': 'Counters are postconditions of read_next, parse, get_next, ignore_next and the observers; each against the ghost position.',
    'P10': 'read_next, parse, get_next, the constructors: the same postconditions are proved for both sources; getline(3) is assumed'
           ' to read one physical line, `get_line_buffer` is proved to.',
    'P16': '`row.py`: get_next, ignore_next and the observers against the log of what was read, parsed and converted (contracts of'
           ' read_next, parse, convert), from arbitrary states; message text, swap of converters, frame.',
    'P22': 'Tasks of read_next with and without ignore_empty: a line may be passed over only if it is empty, a row returned is not.'}
MORE_CAUGHT = {
    'last-line-terminator': 'Caught by P06 (in-bounds obligation of get_line_buffer; input found).',
    'cr-before-end': 'Caught by P07 (and P22; input found).',
    'inner-limit': 'Caught by P08 (limit obligation of parse; input found).',
    'position-of-empty-lines': 'Caught by P09 (position postcondition of read_next; input found).',
    'file-length-by-strlen': 'Caught by P10 (fails for the file, holds for the buffer; input found).',
    'messages-add-up': 'Caught by P16 (message obligation of get_next; input found).',
    'single-character-row': 'Caught by P22 (row lost at the end; input found).'}

CO, EXF = ['include/ss/converter.hpp'], ['include/ss/extract.hpp']
TY = 'all field texts of any length and any bytes, whatever stands behind the field in the line'
p('P11', 'Converting a row: columns counted and mapped, first error reported, values kept',
  'Converting the fields of a row (given as a line, as split data, or split before; as single types, a tuple, a tied class or an object) succeeds exactly when the row is well formed, the number of columns is the expected one (the number of types given, or under a column mapping the number of columns of the mapped table, with one type for each mapped column), and every column whose type is not void converts and satisfies its restriction. The result then holds for each of these types, in order, the value of its own column. Otherwise the first cause in that order is reported in the configured error mode, with both counts or with the position of the type (from 1) and the text of its field; an error of an earlier row is never kept, and the mapping is never changed.',
  ['inputs', 'configurations', 'histories'], 'all rows (any number of fields, any texts), column mappings and earlier states of the converter; the type lists and error modes listed in the evidence',
  'the outcome depends on the combination of type list, mapping, field count and state of earlier rows; tests sample few mappings and check the text of few messages',
  CO + EXF, [('conversion', 'include/ss/converter.hpp convert_impl, extract_tuple, extract_multiple, extract_one'), ('mapping', 'include/ss/converter.hpp column_position, set_column_mapping'), ('errors', 'include/ss/converter.hpp handle_error_*, error_sufix')],
  ['ss::converter::convert / convert_object', 'ss::parser::get_next', 'error_msg()'])
p('P12', 'Integers, bool, char and strings: exactly the texts of the type, exact value',
  'A field converts to an integer type exactly when all of it is a decimal integer (no spaces, no plus sign, a minus sign only for signed types) which that type can hold, and gives that integer; the wrappers ss::int8 and ss::uint8 behave like any other integer type. A field converts to bool exactly when it is 0, 1, true or false, to char exactly when it is one character, and to std::string and std::string_view always, as its exact text, including an empty one. What stands behind the field in the line never matters, and nothing else is read or written.',
  ['inputs', 'configurations'], TY + '; int, unsigned, short, long, long long and their unsigned variants, ss::int8, ss::uint8, bool, char, std::string, std::string_view',
  'partial matches, values at the limits of ten integer types and text behind the field are a space tests only sample',
  EXF, [('conversion', 'include/ss/extract.hpp to_num, extract')], ['ss::extract', 'ss::converter::convert', 'ss::parser::get_next'])
p('P13', 'optional and variant: engaged exactly on success, first fitting alternative',
  'Converting to std::optional<T> always succeeds and gives the value of the field as T exactly when the field converts to T, and an empty optional otherwise, whatever the optional held before. Converting to std::variant succeeds exactly when the field converts to at least one alternative and gives the value of the first alternative, in order, which it converts to.',
  ['inputs', 'configurations'], TY + '; element types int, bool, char, double, std::string, ss::uint8 and variants of two or three of these',
  'the alternative chosen depends on the text of the field against every earlier alternative; tests use a handful of texts',
  EXF, [('conversion', 'include/ss/extract.hpp extract (optional), extract_variant')], ['ss::extract', 'ss::converter::convert', 'ss::parser::get_next'])
p('P14', 'Restrictions permit exactly the values they name and report their own text',
  'The restrictions permit exactly the values they name: ax every value but the ones listed, nx only the ones listed, gt, gte, lt and lte the values on their side of the bound (with or without the bound), ir the values from the minimum to the maximum, both included, oor the values outside of these, and ne a text which is not empty. A field whose value is not permitted makes the row fail with the text of the restriction (value excluded, empty field, validation error) and the column, a permitted value is returned unchanged.',
  ['inputs', 'configurations'], 'all values of int, long, unsigned, short, char, double and std::string, bounds below, at and above zero, one to four listed values',
  'boundary values and lists of several values over many types; tests check one or two values per restriction',
  ['include/ss/restrictions.hpp'] + CO, [('validators', 'include/ss/restrictions.hpp ss_valid, error'), ('application', 'include/ss/converter.hpp extract_one')],
  ['ss::converter::convert', 'ss::parser::get_next', 'error_msg()'])
p('P15', 'Floating point fields: the whole field and nothing else, in both back ends',
  'A field converts to double or float exactly when all of it is one number for the number parser in use (fast_float, or strtod and strtof when SSP_DISABLE_FAST_FLOAT is defined), and gives exactly the value this parser gives for that text, whatever the length of the field and whatever stands behind it in the line. A field which is empty, or only begins with a number, is rejected, and nothing outside the field and no memory outside the buffers of the conversion is read or written.',
  ['inputs', 'configurations'], TY + '; double and float, with fast_float and with SSP_DISABLE_FAST_FLOAT',
  'without fast_float the text is copied to one of two buffers depending on its length, which the tests do not cross at the boundary',
  EXF, [('back ends', 'include/ss/extract.hpp to_num')], ['ss::extract<double>, ss::extract<float>', 'ss::converter::convert'])

EXN = 'Proved for all texts per type; std::from_chars, fast_float::from_chars, strtod and strtof enter through assumed contracts.'
MORE_NOTES.update({
    'P11': 'Proved for all rows, mappings and converter states per type list and mode in the evidence; extract and splitter::split enter through contracts (P12-P15, P01, P02).',
    'P12': EXN, 'P13': EXN + ' variants with std::string_view are not covered.', 'P14': 'Proved for all values per restriction and arguments listed in the evidence.', 'P15': EXN})
MORE_DECIDE.update({
    'P11': '`conv.py convert`: `converter::convert` is verified from an arbitrary converter (any old error, any fields, any mapping of'
           ' any length) with `ss::extract` by contract: which field is extracted as which type, in which order, is logged, and each'
           ' exit must return the values of its own columns or report the first cause. 24 combinations of type list, mode, mapping'
           ' and entry quick (15 s), 198 thorough.',
    'P12': '`conv.py extract`: the real `ss::extract<T>` over a symbolic line; `std::from_chars` by contract (longest prefix, ERANGE);'
           ' what the text denotes is a ghost predicate over the exact field range; bool and char are compared literally.',
    'P13': 'Same tasks for optional (empty and engaged before) and variant: engaged exactly when the text is one of the element,'
           ' first alternative which accepts; the value inside is the one the text denotes.',
    'P14': '`conv.py restriction`: `ss_valid` on an arbitrary value against the arithmetic meaning; `message`; and the convert tasks'
           ' with restrictions for their application and report.',
    'P15': '`conv.py extract` for float and double, both back ends; the buffer handed to strtod must hold the text of the field and'
           ' a terminator (obligation for an arbitrary character), every access in bounds.'})

PP = ['include/ss/parser.hpp']
p('P17', 'Fields by name: the header is split once, columns follow the names given',
  'header() gives exactly the fields of the header line (raw_header(), the first row read, split in the dialect without multiline), and field_exists(f) is true exactly when f is one of them; a header which is malformed, or for field_exists and use_fields contains a field twice, is reported every time and none of its fields is kept. use_fields(f...) succeeds exactly when the header is fine, at least one field is given, every one is in the header (which counts as having no fields if the input has ended before it was split) and none is given twice: then both converters read, for every given field in order, the column with that name out of the number of columns of the header, and the header row is skipped exactly when it is still the waiting row and nothing else is read. Otherwise the error names the first field at fault, and neither mapping nor rows change; apart from this the operations change nothing but the error state.',
  ['inputs', 'configurations', 'histories'], 'all headers (any number of fields, any texts), all parser states (header split before, not yet, cleared after an error); no, one, two or three fields given as std::string',
  'the result depends on any pair of header fields and on when in a sequence of reads the fields are chosen; tests use small headers right after the construction',
  PP, [('header', 'include/ss/parser.hpp header, raw_header, split_header_data, strict_split, header_index'), ('fields', 'include/ss/parser.hpp use_fields, field_exists'), ('errors', 'include/ss/parser.hpp handle_error_invalid_field, handle_error_duplicate_header_field, handle_error_field_used_multiple_times, handle_error_invalid_header_split')],
  ['ss::parser::header / raw_header / field_exists / use_fields', 'rows of get_next after use_fields', 'error_msg()'])
p('P19', 'Substitute conversions: first success wins, same row, failures leave no value',
  'try_next and try_object read exactly one row; or_else and or_object try another conversion of that same row exactly when no earlier one of the chain succeeded, and otherwise do nothing and hold no value. A value is held exactly when its conversion succeeded and the function passed with it, called exactly once with that value (as a whole, in parts or without arguments, and free to change it), did not refuse it; a refused value is reported as a failed check and a failed conversion with the file, the line and its cause. on_error calls its function exactly when nothing succeeded, with the message of the last failure, and values() returns what is held, which neither of them changes.',
  ['inputs', 'configurations', 'histories'], 'all rows and parser states, all outcomes of the conversions and of the functions; value types, function forms and error modes listed in the evidence',
  'the chain has a state of its own (values held, validity of the parser) which depends on every combination of outcomes; tests check a few chains',
  PP, [('composite', 'include/ss/parser.hpp composite::or_else, or_object, try_convert_and_invoke, composite_with, on_error, values'), ('functions', 'include/ss/parser.hpp try_invoke, try_invoke_impl, try_invoke_and_make_composite'), ('failed check', 'include/ss/parser.hpp handle_error_failed_check')],
  ['ss::parser::try_next / try_object', 'composite::or_else / or_object / on_error / values', 'error_msg()'])
p('P21', 'Iterating over a parser is the same as calling get_next until eof',
  'Iterating with iterate or iterate_object (begin, pre and post increment, comparison with end, dereference) is the same as calling get_next or get_object until eof() is true: begin and every increment read exactly one row unless the parser is at its end, in which case they read nothing, change nothing and the iterator compares equal to end(). The value seen is the one get_next returned, errors and exceptions of a row are those of get_next, and an iterator which has not seen the end never compares equal to end().',
  ['inputs', 'configurations', 'histories'], 'all parser states and iterators; value types and error modes listed in the evidence',
  'the end is detected one step after the last row was read, in any state the parser was left in; tests iterate over small valid files',
  PP, [('iterator', 'include/ss/parser.hpp iterable, iterable::iterator')], ['ss::parser::iterate / iterate_object'])
p('P20', 'Moved parsers carry on where they were; buffers and files are released once',
  'A parser which is move constructed or move assigned from another parser carries on exactly where that one was: the same waiting row, error, header, column mapping, delimiter, file name, line, position, input and end of input, and text views into its last row stay valid. A parser which was moved from can be destroyed or assigned to without any effect on the new owner, and all memory and files of every parser involved, including those of a parser assigned over, are released exactly once by the time the parsers are destroyed: reading and skipping rows lose no buffer, an open file stays open as long as its owner needs it, and a constructor which throws closes it.',
  ['inputs', 'configurations', 'histories'], 'all parser states (before the first row, with a row waiting, at the end; any buffers, texts and vectors), both sources on either side of an assignment, three error modes; a parser assigned to itself is not covered',
  'a member forgotten or released twice shows only for the state in which it matters, and leaks do not fail tests',
  PP, [('moving', 'include/ss/parser.hpp reader::reader(reader&&), reader::operator=(reader&&)'), ('release', 'include/ss/parser.hpp reader::~reader'), ('parts', 'include/ss/converter.hpp and splitter.hpp implicit move operations')],
  ['ss::parser move construction, move assignment, destruction', 'open descriptors and allocated memory'])
MORE_NOTES.update({
    'P20': 'Proved for all parser states per operation, source, error mode and stage of reading; std::string and std::vector storage by assumed contracts, fclose and free by contract.',
    'P17': 'Proved for all headers and parser states per operation, number of fields and error mode; splitter::split enters by contract (P01, P02), std::find, std::count and comparison of strings by assumed contracts.',
    'P19': 'Proved for all rows and outcomes per value type, function form and error mode; get_next and converter::convert enter through contracts (P16, P11), the functions passed are arbitrary.',
    'P21': 'Proved for all parser and iterator states per value type and error mode; get_next enters through its contract (P16).'})
MORE_DECIDE.update({
    'P20': '`moves.py`: drivers move construct, move assign and assign over a parser moved from, with two or three arbitrary parsers which own'
           ' buffers, vectors, texts and files of their own, and destroy them one after the other; at every point each member a later call'
           ' depends on is compared with what it was, each block and file with who owns it (alive, start and size, distinct), and at the end'
           ' nothing may be left; `row.py`: no operation drops a buffer, failing constructors close the file.',
    'P17': '`header.py`: header, raw_header, field_exists and use_fields from an arbitrary parser; the header is split by contract into any'
           ' number of fields, texts are compared through tokens (equal exactly when the texts are), two arbitrary indices I < J stand'
           ' for every pair of fields; loop invariants: the fields kept so far are those split, and no two of them are equal.',
    'P19': '`tries.py`: each operation from an arbitrary composite (any values held, any parser state) with get_next, convert and the'
           ' function passed by contract; what was called is logged and compared with the values held, the error and the frame.',
    'P21': '`iterate.py`: begin, ++, it++, == and != from arbitrary iterators with get_next by contract.'})
MORE_CAUGHT.update({k: 'Caught by %s (input found).' % v for k, v in {
    'void-under-mapping': 'P11', 'long-rows-under-mapping': 'P11', 'wide-int8': 'P12', 'bool-by-prefix': 'P12', 'empty-text-in-optional': 'P13',
    'variant-last-empty': 'P13', 'blank-not-empty': 'P14', 'bound-by-negation': 'P14', 'number-up-to-nul': 'P15', 'trailing-zeros': 'P15',
    'refused-object-kept': 'P19', 'changed-in-function-lost': 'P19', 'values-taken-once': 'P19',
    'values-of-valid-rows': 'P21', 'iteration-from-the-middle': 'P21'}.items()})

MORE_CAUGHT.update({k: 'Caught by P17 (input found).' for k in (
    'twice-found-late', 'asked-after-failure', 'fields-known-until-the-end')})
MORE_CAUGHT.update({k: 'Caught by P20 (input found).' for k in (
    'crlf-stays-behind', 'closed-with-the-first-row', 'sizes-exchanged', 'header-line-stays-behind', 'name-stays-behind')})

p('P18', 'The three error modes agree on values, failures and what follows them',
  'For the same input, options and operations a parser or converter behaves the same in every error mode (flag, string_error, throw_on_error): an operation fails in one exactly when it fails in the others (valid() is false, or ss::exception is thrown), operations which succeed give the same values, and eof(), line() and position() are the same after every operation, also after failures and exceptions, so that reading carries on with the same row. The text of the exception is what error_msg() gives for the same failure. Nothing but ss::exception is thrown because of the input, and nothing at all in the other two modes.',
  ['inputs', 'configurations', 'histories'], 'all inputs and parser states per operation: construction, get_next, get_object, ignore_next, iteration, header, field_exists, use_fields and converter::convert (try_next does not exist with throw_on_error); allocation failures are not covered',
  'every error is reported by code written once per mode, and with exceptions every function is left at another point; tests check messages and states after failures for few causes and mostly in one mode',
  PP + ['include/ss/converter.hpp', 'include/ss/splitter.hpp'], [('modes', 'include/ss/parser.hpp get_next, handle_error_*, decorate_rethrow, decorate_rethrow_invalid_header_split, clear_error'), ('converter', 'include/ss/converter.hpp handle_error_*, extract_one'), ('splitter', 'include/ss/splitter.hpp handle_error_*')],
  ['values, valid(), error_msg() or what(), eof(), line(), position() in the three modes'])
MORE_NOTES.update({'P18': 'Each mode is proved against one common contract per operation (values, outcome, text of the message, state afterwards), for all rows and parser states; the functions called enter by contract (P01-P16).'})
MORE_DECIDE.update({
    'P18': 'The drivers of `split.py`, `multiline.py`, `row.py`, `parser.py`, `conv.py`, `header.py` and `iterate.py` are run for each of the'
           ' three modes against the same contract, in which a failure is "valid() false", "error_ is this text" or "an exception with'
           ' this text is thrown"; three modes which meet one deterministic contract agree. A contract all three fail alike is left to the'
           ' property it belongs to (`modes` in props.py); `search/modes.cpp` runs the same operations in three modes side by side.'})
MORE_CAUGHT.update({k: 'Caught by P18 (input found).' for k in (
    'line-before-the-waiting-row', 'last-field-in-message', 'mapping-swapped-in-exception', 'half-a-header')})

p('P23', 'The single header ssp.hpp gives the guarantees the separate headers give',
  'The code in ssp.hpp, used instead of the headers in include/ss, provides by itself what the other properties state (with the strtod back end for floating point numbers): splitting in the dialect with every malformed line reported, no access outside the line and the buffers, reading every line once for files and buffers with its own line ending, joining multiline rows, conversions with their values, restrictions and errors, fields by name, substitute conversions, iteration, moving and releasing, line numbers and messages.',
  ['inputs', 'configurations', 'histories'], 'all inputs and parser states, for the instantiations listed in the evidence (fewer dialects than P01-P03 quick, all of them thorough)',
  'no test includes ssp.hpp: it is only compiled; a copy which is out of date or was changed by hand behaves differently for the inputs the change is about',
  ['ssp.hpp'], [('whole library', 'ssp.hpp')], ['every operation of ss::splitter, ss::converter and ss::parser from ssp.hpp'])
MORE_NOTES.update({'P23': 'The contracts and drivers of the other properties, with every include of the library replaced by ssp.hpp; nothing of include/ss is read.'})
MORE_DECIDE.update({
    'P23': 'Every driver is compiled with headers which consist of `#include "ssp.hpp"`, and the contracts of P01-P22 are proved for that code:'
           ' four dialects, five multiline configurations and all quick tasks of the other properties (49478 obligations, 120 s), everything in the thorough tier.'})
MORE_CAUGHT.update({k: 'Caught by P23 (input found).' for k in (
    'single-header-full-buffer', 'single-header-past-the-header', 'single-header-mixed-endings')})

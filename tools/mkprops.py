#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=observe or [],hook_needed=None)))
D='ginko/src/dts/'
p('C01','Any text can be loaded and queried without a crash or a hang',
 'Loading any UTF-8 text as a device-tree file of any kind, alone or together with files it includes, always terminates normally: no panic, no abort, no endless loop, however broken, deeply nested or unusual the text is. The same holds for every query on the result: listing and rendering the diagnostics, reading the tree, and looking up the item, its documentation or its definition at any position.',
 ['inputs'],'every UTF-8 text (valid files, token soup, truncated or mutated files, non-ASCII text, deep nesting), every file kind, every query position',
 'The unit tests load about 60 small hand-written texts; a panic hides behind particular byte sequences, truncation points, multi-line spans, nesting depths or include targets that none of them contains.',
 [D+'tokens/lexer.rs',D+'parser.rs',D+'analysis.rs',D+'project.rs',D+'diagnostics.rs',D+'visitor.rs',D+'data.rs'],
 [('lexer falls back to an unknown token',D+'tokens/lexer.rs'),('parser reports and recovers instead of panicking',D+'parser.rs'),('renderer handles every span',D+'diagnostics.rs')],
 observe=['Project::add_file_with_text','Project::find_at_pos','DiagnosticPrinter'])
p('C02','The parsed tree is exactly what the source says',
 'For every well-formed source the parsed tree holds exactly the top-level directives, nodes, properties, labels, deletions and values written in it, in source order and at the nesting level where they were written, nothing lost, invented, merged or moved. Names, unit addresses, label and path references and string contents (with the escapes \\" and \\\\ undone, any other character verbatim, non-ASCII included) are those of the source.',
 ['inputs'],'every well-formed source of the supported language, whatever its size, nesting, layout and choice of names and values',
 'Tests compare the trees of about ten tiny files; interaction of lexer state, labels, comments, nesting, lists of several values and unusual names is combinatorial.',
 [D+'parser.rs',D+'tokens/lexer.rs',D+'ast.rs'],
 [('recursive-descent parser','%sparser.rs'%D),('context-dependent name lexing',D+'tokens/lexer.rs'),('node name / path splitting',D+'ast.rs')],
 observe=['Parser::file','Project::get_root'])
p('C03','Numbers and byte strings denote their values or are reported',
 'A decimal, 0x-hexadecimal or 0-octal integer in a cell list or memory reservation is read as its mathematical value if that fits (32 bits in cells, 64 bits in memory reservations and after /bits/ 64, however the width is spelled); otherwise, and for digits illegal in its base, exactly one integer error is reported, covering that literal. A byte string of hex-digit pairs is read as those bytes; a group with an odd number of characters or with a non-hexadecimal character is reported once, on that group, with the corresponding error.',
 ['inputs'],'every literal spelling (base, letter case, leading zeros, boundary values, over-long, illegal digits) at every place where a number or a byte group may stand',
 'Tests contain about eight literals, all small and valid; boundaries (0xffffffff, 2^64-1, leading zeros, octal digits) and malformed literals are untested.',
 [D+'parser.rs',D+'ast.rs',D+'tokens/lexer.rs'],
 [('base selection and range check of cells and reservations',D+'parser.rs'),('byte-string decoding',D+'parser.rs')],
 observe=['Parser::file','Project::get_diagnostics'])
p('C04','Reported source positions are exact',
 'Every source range handed out for a tree element (names, labels, references, values, whole properties and nodes, include directives, deletions) starts and ends exactly where that element is written. Lines are zero-based and columns count UTF-16 code units, as in the language-server protocol, regardless of tabs, CRLF line ends, comments and non-ASCII characters before it.',
 ['inputs'],'every well-formed source in every layout: any whitespace, comments, multi-line elements, multi-byte and astral characters in strings and comments',
 'Position tests use ASCII one-liners with plain blanks; nothing exercises multi-byte text, tabs, CR or comments in front of an element.',
 [D+'reader.rs',D+'tokens/lexer.rs',D+'data.rs',D+'ast.rs'],
 [('position counting in the reader',D+'reader.rs'),('token spans',D+'tokens/lexer.rs'),('composite spans',D+'ast.rs')],
 observe=['HasSpan::span of every element'])
p('C05','Well-formed sources are accepted without complaint',
 'A well-formed source of the supported language that follows the naming and ordering rules and whose references and includes all resolve gets no diagnostic at all, neither error nor warning. This covers labels at every legal place, comments, memory reservations, deletions, /omit-if-no-ref/, /bits/, parenthesised expressions, byte strings, repeated root and node definitions, quoted C-style include lines, and names up to the length limit.',
 ['inputs','programs'],'every well-formed, rule-abiding, fully resolvable source, single file or with includes',
 'Three small .dts files and a dozen inline snippets are checked for silence; false alarms depend on combinations (re-opened nodes, extension by reference, boundary-length names, expressions) they never form.',
 [D+'parser.rs',D+'tokens/lexer.rs',D+'analysis.rs'],
 [('grammar',D+'parser.rs'),('name rules',D+'parser.rs'),('semantic rules',D+'analysis.rs')],
 observe=['Project::get_diagnostics'])
p('C06','Ill-formed text is never accepted silently',
 'Text that is not a well-formed device-tree source always gets at least one error-level diagnostic. The first syntax error reported lies at the place where the text stops being well-formed: between the end of the last token that still fits the grammar and the end of the first token that does not (or the end of the file), and its message names at least one thing that may stand there. Unbalanced parentheses are reported where they open, and only if they are not closed.',
 ['inputs'],'every ill-formed text: each deletion, insertion, duplication, replacement or swap of tokens in a valid source, each truncation point, unterminated strings, comments and references, stray characters',
 'A handful of tests cover a missing semicolon and a missing brace; acceptance of the other malformed texts is untested.',
 [D+'parser.rs',D+'tokens/lexer.rs'],
 [('expected-token diagnostics',D+'parser.rs'),('end-of-file handling',D+'tokens/lexer.rs')],
 observe=['Project::get_diagnostics'])
p('C07','Missing semicolons are recovered from, and errors do not hide others',
 'When semicolons are forgotten after property values, closing braces or directives, the parser reports each of them once, directly after the preceding token, and still produces the tree of the source with the semicolons in place. When parsing cannot continue, the problems found before that point are still reported along with the fatal one.',
 ['inputs'],'every well-formed source with any set of such semicolons removed, followed or not by an unrecoverable error',
 'Two tests drop up to three semicolons of a five-line file; recovery depends on what follows and on the lexer state.',
 [D+'parser.rs',D+'tokens/lexer.rs',D+'project.rs'],
 [('semicolon recovery',D+'parser.rs'),('unrecoverable file bookkeeping',D+'project.rs')],
 observe=['Project::get_diagnostics','Project::get_root'])
p('C08','Comments and whitespace change nothing but positions',
 'Inserting, removing or changing comments and whitespace between tokens leaves the tree and the list of diagnostics (kind, message, order) unchanged, for well-formed and erroneous sources alike. Each diagnostic stays attached to the same tokens.',
 ['inputs'],'every source, valid or not, and every pair of layouts of the same token sequence',
 'Layout is fixed in each test; only three snippets contain a comment.',
 [D+'tokens/lexer.rs',D+'parser.rs'],
 [('whitespace and comment skipping',D+'tokens/lexer.rs'),('position of the last token used for error reporting',D+'tokens/lexer.rs')],
 observe=['Project::get_diagnostics','Project::get_root'])
p('C09','Each rule violation is reported exactly once, at its place',
 'A source that breaks naming, ordering or directive rules gets exactly one diagnostic per violation, with the kind and severity (error or warning) documented for that rule, located on the offending element, and no others. The rules: illegal character, illegal first character, missing name or name longer than 31 characters in labels, node names, unit addresses and property names; properties after child nodes; missing, duplicate or misplaced /dts-v1/; /omit-if-no-ref/ on a property; non-string values in "compatible"; empty path reference; semicolon after /include/.',
 ['inputs'],'every source with any number of such violations at any places in any combination',
 'Each rule has at most one example; several (illegal start, empty path, duplicate or misplaced header, non-string compatible, semicolon after include, unit addresses) have none.',
 [D+'parser.rs',D+'analysis.rs',D+'error_codes.rs'],
 [('identifier rules',D+'parser.rs'),('header and property rules',D+'analysis.rs'),('severity table',D+'error_codes.rs')],
 observe=['Project::get_diagnostics'])
p('C10','Unresolved references are reported exactly',
 'In a plain device-tree source, a label or path reference is reported as unresolved if and only if nothing it names is defined in the file or in its includes, transitively: references in property values may name anything defined anywhere, references that extend, delete or omit a node only nodes defined before that place. Nodes re-opened later, nodes added by extending another node through a reference, and nodes coming from included files count as defined under their full path and labels.',
 ['inputs','programs'],'every set of files with any arrangement of definitions, re-definitions, extensions, deletions, includes and references',
 'Three tests with at most four nodes; label re-declaration, extension by reference inside includes, transitive includes and ordering are untested.',
 [D+'analysis.rs',D+'project.rs',D+'ast.rs'],
 [('label and path tables',D+'analysis.rs'),('merging of include contexts',D+'analysis.rs'),('analysis order',D+'project.rs')],
 observe=['Project::get_diagnostics'])
p('C11','Lookup at a position finds the item there and its definition',
 'Looking up a position yields the label, reference or include directive written at that position, and nothing where none of these is written. For a reference that resolves, the reported definition is the name of the node that the label or path denotes, in the file that defines it, and its documentation names that node.',
 ['inputs'],'every position of every file of every project',
 'One test looks up two references at their first character; all other positions and constructs are untested.',
 [D+'visitor.rs',D+'analysis.rs',D+'project.rs'],
 [('tree walk by position',D+'visitor.rs'),('definition lookup',D+'project.rs')],
 observe=['Project::find_at_pos','Project::get_node_position','Project::document_reference'])
p('C12','Includes are resolved in order and loaded completely',
 'An include names a file that is looked for first in the directory of the including file, then in the configured include directories in their order, then relative to the working directory, and the first existing one is used. Loading a file loads exactly the files reachable through such includes, once each, however they are spelled (relative, absolute, through links or ..); an include that cannot be read is reported exactly once, on the directive, and the rest of the file is still analysed.',
 ['inputs','configurations'],'every directory layout, include-path list and include graph, with missing, unreadable and duplicate targets',
 'Tests use absolute paths or one file per include directory; precedence, relative spelling, missing files and directories are untested.',
 [D+'ast.rs',D+'project.rs',D+'parser.rs'],
 [('include path search',D+'ast.rs'),('recursive loading with caching',D+'project.rs')],
 observe=['Project::files','Project::get_diagnostics'])
p('C13','Include cycles are always detected and only then reported',
 'If the files of a project include each other in a cycle, loading terminates and every such cycle gets a cyclic-include error on at least one of its include directives, with a message listing a real cycle. Projects whose includes form no cycle, however often files are shared, never get one, and an include of a file that lies on no cycle is never blamed.',
 ['inputs','programs'],'every include graph, including self-includes, shared files, nested and overlapping cycles, and every starting file',
 'The integer-graph tests cover six graphs and one two-file project.',
 [D+'import_guard.rs',D+'analysis.rs',D+'project.rs'],
 [('incremental cycle check',D+'import_guard.rs'),('placeholder entry during loading',D+'project.rs')],
 observe=['Project::get_diagnostics'])
p('C14','Errors in included files are flagged at the include',
 'An include directive gets an "errors in include" diagnostic if and only if the file it loads currently has at least one error-level diagnostic of its own (warnings do not count), which makes errors propagate through chains of includes up to the top file. The diagnostic covers the include directive, and the included file keeps its own diagnostics.',
 ['inputs','programs'],'every acyclic include graph with any distribution of errors and warnings, loaded in any order',
 'One test with one level; chains, warnings-only files, diamonds and analysis order are untested.',
 [D+'analysis.rs',D+'project.rs'],
 [('error check on include',D+'analysis.rs'),('dependency-ordered analysis',D+'project.rs')],
 observe=['Project::get_diagnostics'])
p('C15','Results depend on the contents only, not on history or order',
 'The diagnostics, trees and definitions of the open files and of everything they include are a function of the current texts and include directories alone. Any history of adding, changing, re-adding and closing files or changing the include directories, in any order, gives the same results as loading the final state afresh, and repeating a load gives the same results.',
 ['histories','inputs'],'every sequence of add, change, close and configuration operations over a set of files that include and reference each other',
 'No test edits a file twice, closes one, or loads the same set in two orders.',
 [D+'project.rs',D+'analysis.rs'],
 [('re-analysis of all files on every change',D+'project.rs'),('analysis order independent of hash order',D+'project.rs')],
 state=[dict(name='files',meaning='cached parse results per path',where=D+'project.rs')],
 observe=['Project::get_diagnostics','Project::get_root','Project::get_node_position'])
p('C16','Rendered reports quote and underline the right text',
 'The rendered report contains one block per diagnostic, in order: severity, file, one-based line and column of the start, the quoted source line, and under it carets with the message. The carets stand exactly under the characters of the diagnosed range (up to the end of the first line if it spans several, at least one caret), with tabs kept so that they line up.',
 ['inputs'],'every diagnostic range over every source text, including multi-line ranges, positions at or after the line end, tabs and non-ASCII characters',
 'Two tests render one ASCII line each.',
 [D+'diagnostics.rs'],
 [('diagnostic formatting',D+'diagnostics.rs')],
 observe=['DiagnosticPrinter','stdout of the ginko command'])
p('C17','The command-line tool reports everything and exits accordingly',
 'Running the command-line tool on a file prints every diagnostic of that file and of all files it includes, each exactly once and under the file it belongs to. It exits with status 0 and says that no issues were found if and only if there is none; otherwise, and when the file cannot be read, it exits with a non-zero status and does not claim success.',
 ['inputs','configurations'],'every file, set of includes and -i/--include option list',
 'The command-line tool has no tests at all.',
 ['ginko/src/main.rs',D+'project.rs',D+'diagnostics.rs'],
 [('report loop and exit status','ginko/src/main.rs')],
 observe=['exit status and stdout of the ginko command'])
p('C18','The language server publishes the current diagnostics',
 'After any sequence of opening, changing and closing documents and changing the configuration, the last diagnostics published for every open document and every file it includes are exactly those of the current texts, with includes searched in the directories given in the configuration and on the server\'s command line: same ranges, messages, codes and severities. Documents that are closed and no longer used by an open one are not left with stale diagnostics they were last shown with.',
 ['histories','inputs'],'every sequence of open, change, close and configuration notifications over documents that include each other, pipelined or not, for every set of include directories in the configuration and on the command line',
 'The language server has no tests at all.',
 ['ginko_ls/src/server.rs',D+'project.rs','ginko_ls/src/main.rs'],
 [('publishing after every change','ginko_ls/src/server.rs'),('full-text synchronisation','ginko_ls/src/server.rs')],
 observe=['textDocument/publishDiagnostics messages'])
p('C19','The outline mirrors the tree',
 'The document outline returned by the language server lists, in source order and with the same nesting, one symbol for every root and extended node, child node, property, include directive and deletion, named after it and with the kind for its sort, and nothing else. Each symbol selects its name and spans the whole element; the selection lies inside the range, and the range inside that of its parent.',
 ['inputs'],'every source that parses, including those with recoverable errors',
 'The language server has no tests at all.',
 ['ginko_ls/src/server.rs',D+'ast.rs'],
 [('symbol construction','ginko_ls/src/server.rs')],
 observe=['textDocument/documentSymbol responses'])
p('C20','Go-to-definition and hover answer for what is under the cursor',
 'Go-to-definition on a resolvable reference returns the file and range of the name of the node it denotes, also across files, and on an include directive a place within the included file; hover on a reference names that node, on a label the label, on an include the included file name. Everywhere else, and on references that do not resolve, both return nothing.',
 ['inputs'],'every position of every open document of every workspace, after any edits',
 'The language server has no tests at all.',
 ['ginko_ls/src/server.rs',D+'visitor.rs',D+'project.rs'],
 [('definition and hover handlers','ginko_ls/src/server.rs'),('position lookup',D+'visitor.rs')],
 observe=['textDocument/definition and textDocument/hover responses'])
p('C21','The language server survives every session',
 'Whatever well-formed protocol messages a client sends, in any order and pipelined or not, the server keeps running and answers every request, until it is told to exit. This includes documents that do not exist on disk, are not open or were closed, non-file URIs, positions beyond the text, empty or multiple content changes (the last one counts), malformed settings and arbitrary document text.',
 ['histories','inputs','fault_sequences'],'every sequence of protocol-conforming requests and notifications with arbitrary parameters',
 'The language server has no tests at all.',
 ['ginko_ls/src/server.rs','ginko_ls/src/main.rs',D+'project.rs'],
 [('request handlers returning none instead of failing','ginko_ls/src/server.rs')],
 observe=['responses and liveness of the ginko_ls process'])
p('C22','Printing a tree gives source with the same meaning',
 'The textual form of a parsed file (and of any node, property or directive in it) is again well-formed source, and parsing it yields the same tree: same items, names, labels, unit addresses, deletions, strings, numbers, bytes and references, in the same order; only layout, comments and the spelling of numbers may differ. Printing that tree again gives the same text.',
 ['inputs'],'every well-formed source without parenthesised expressions (which the parser deliberately skips), /bits/ prefixes and labels inside values (which it does not keep)',
 'Display implementations are not tested.',
 [D+'ast.rs'],
 [('Display implementations',D+'ast.rs')],
 observe=['Display of files, nodes, properties, values and directives'])
p('C23','The kind of a file decides which rules apply to it',
 'Files ending in .dts are plain sources, .dtsi includes, .dtso and .overlay overlays, anything else unknown. Only plain sources must have a /dts-v1/ header and, unless they contain /plugin/, have unresolved references reported; every other rule and all syntax errors apply to every kind alike, however the file entered the project.',
 ['inputs','configurations'],'every text under every file name, added directly, with given text, or through an include',
 'Tests check from_file_ending for two endings and analyse only plain sources.',
 [D+'data.rs',D+'analysis.rs',D+'project.rs'],
 [('file type from extension',D+'data.rs'),('rules gated by file type',D+'analysis.rs')],
 observe=['Project::get_diagnostics'])
for q in P:
    assert len(q['title'])<=80,q['id']
    assert q['statement'].count('. ')<=2,(q['id'],q['statement'].count('. '))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))

c('C02', 'property-based testing: generated documents, rendered with random layout, against the model tree',
  'The parsed tree is compared with the generating model. Trusts the generator and renderer.')
c('C03', 'property-based testing: generated literals against arbitrary-precision values',
  'Values and diagnostics of legal and illegal number and byte literals at all places, compared with independently computed ones.')
c('C04', 'property-based testing: generated documents with recorded token positions',
  'Every span of the tree is compared with the position recorded when the source was laid out.')
c('C05', 'property-based testing: generated lawful sources and projects must get no diagnostic',
  'The generator builds only sources that follow all rules; any diagnostic is a violation.')
c('C06', 'fuzzing with a reference recogniser: mutated and random token sequences',
  'An independent lexer and recogniser of the language decides where a text stops being well-formed; unclear cases are skipped and counted.')
c('C07', 'metamorphic property-based testing: semicolons removed from generated sources',
  'The tree and the diagnostics of the damaged source are compared with those of the intact one.')
c('C08', 'metamorphic property-based testing: two random layouts of the same token sequence',
  'Trees and diagnostics of both layouts are compared; positions are compared through the tokens they are attached to.')
c('C09', 'property-based testing: generated rule violations against a reference rule checker',
  'The exact multiset of diagnostics is compared with that of an independent implementation of the rules.')
c('C16', 'property-based testing of the renderer against a reference renderer',
  'Exact text of the report for random lines and ranges.')
c('C22', 'round-trip property-based testing: parse, print, parse, print',
  'Trees of the source and of the printed text are compared, for whole files and for single elements.')
c('C01', 'fuzzing: mutated sources, random text, deep and long constructs, and random operation sequences on files',
  'Every load and every query runs in a worker process; panics, aborts and more than 20 s of CPU time are violations. Texts have at most some hundred kB.')
c('C10', 'property-based testing: generated projects against a reference evaluator of definitions',
  'The expected set of unresolved references is computed from the model of all files.')
c('C11', 'property-based testing: generated projects, every position of every file looked up',
  'Items and definitions are those recorded when the sources were laid out and evaluated.')
c('C12', 'property-based testing: generated directory trees and include spellings against a reference resolver',
  'The resolver decides by the file names that the harness created itself.')
c('C13', 'property-based testing: random include graphs against a reference cycle search',
  'Graphs of up to a dozen files, also with files given as text and loaded in several steps.')
c('C14', 'property-based testing: generated projects with damaged files against a reference propagation of errors',
  'Errors of a file itself are taken from loading it alone; the propagation is computed by the harness.')
c('C15', 'stateful property-based testing: random histories of operations against a fresh load of the final state',
  'Diagnostics, trees and definitions of all files are compared with those of a new project, after every step.')
c('C17', 'property-based testing of the built command-line tool on generated projects',
  'Exit status and output are compared with the diagnostics of the library and with the reference renderer.')
c('C23', 'metamorphic property-based testing: the same text loaded as each kind of file',
  'Diagnostics of the kinds are compared with each other and the kind with the ending of the name.')
c('C18', 'stateful property-based testing of the built language server: random sessions against a project given the final texts',
  'The last published diagnostics of every file are compared after random steps and at the end; messages are also sent without waiting.')
c('C19', 'property-based testing of the built language server: outline of generated documents against the model',
  'Names, kinds, nesting, ranges and selections are those recorded when the document was laid out; for ill-formed documents the shape is that of the parsed tree and ranges must nest.')
c('C20', 'property-based testing of the built language server: lookups in generated projects against a reference evaluator',
  'Every answer at sampled positions of all files is compared with what is written there and what it denotes.')
c('C21', 'fuzzing of the built language server: random sessions of valid protocol messages',
  'Every request must be answered exactly once and the server must still run at the end of the session.')

"""Writes known-findings.json: what the checks found in the code, and what became of it."""
import json,os
F='''C22 7ecfe1f "if ()" as a single argument made the parser panic (index out of range)
C15 e9a509c an argument that starts with "#" was built unquoted and read back as a comment
C10 644b009 sibling blocks overwrote the context kept for an include (shared backing array)
C13 01ea332 after the first error of an include, the goroutine performing includes stayed behind
C04 f59e6ed an error of the reader was taken for the end of the file
C13 e8ab017 the lexer's goroutine stayed behind when a parse ended early
C08 31cbea2 a lexer error among the arguments of a directive was taken for an argument
C08 20eac72 a lexer error inside a skipped block was lost
C08 5028272 the block of an invalid directive that takes arguments was parsed as if it stood outside
C21 5e3e221 a map parameter without ";" before "}" swallowed the rest of the file
C12 578367c an ignored directive without ";" before "}" swallowed the end of its block
C01 9bc2615 a "{" or ";" at the very start of a file was not reported
C01 0d0cf29 a backslash or an opening quote that ends the file was dropped
C18 81aa5f0 marshaling a Directive dropped its empty block
C14 f08c600 a map parameter named "if" was built with parentheses
C12 cacdbe3 comments inside the parameters of a map were lost, or taken for arguments
C19 037931e Parse modified the options it was given
C19 1511cc1 Build modified the options it was given
C24 58459bd the generator emits ngxConfTake7, which was not defined
C24 1e9ce2e generated Go was HTML-escaped
C23 067a0a4 a definition whose name and masks are on different lines was extracted with fragments of both
C23 991bb42 "//" inside a block comment and "/*" inside a string were taken for comments
C02 c8f6efd a directive whose name only starts like that of an external lexer was handed to it
C02 545bd40 an external lexer did not see the special character right after its directive
C02 14834ee an argument named like a directive of an external lexer was handed to the lexer
C02 b75cf7d a stray ";" or "{" after the tokens of an external lexer was not reported
C03 22541ea Lua comments, long brackets and escapes containing braces or quotes ended the block early
C15 b530999 many arguments were not read back as they were (escapes, braces, variables, no-break spaces)
C17 1ee24b7 BuildFiles and BuildInto left the file open when its build or write failed
C11 62af13b Combined panicked on a negative include index
C22 8c6b965 an if condition was not read back as it was after a build
C01 f0b3a83 a backslash followed by a carriage return at the end of a file was dropped
C01 6ba8bc5 a special character after a line break in a word had the line of the word
C05 b121d54 an unknown directive not terminated before "}" was accepted
C03 0b58d7c set_by_lua_block did not end its variable at "{"
C03 351b3b0 several block directives of the Lua module were not lexed as Lua
C15 247a332 an argument ending in an escaped backslash, with both quotes escaped, was double quoted and not read back
C16 1161560 a builder registered for a directive whose name needs quotes was not used
C16 5fa6463 a comment on the line of a directive with its own builder moved to a line of its own
C08 5e686c8 a malformed include pattern made the whole parse fail, without its line
C19 0a56ccd Parse modified an error that belongs to an external lexer
C23 23c5f30 sized arrays, unusual white space and definitions inside string literals were extracted wrongly
C06 6ce60de a block whose name is empty or contains ">" (such as "http>server") was taken for a block of nginx
C25 b351c87 the error for an included file that can't be opened lost its cause
C19 2452029 Parse sorted the slice that Glob returned
C25 298a360 an error of an external lexer that is a premature end was taken for an argument and lost
C24 c96f405 a comment of several lines made the generated code fail to compile
C11 9629f77 combining a payload whose configs include each other never ended
C23 c694cb0 a vertical tab in a definition hid its directives
C02 db27318 an external lexer for a name with an expansion was never called, one for what precedes an expansion was
C24 76f0006 go generate ran generate.sh, a bash script, with sh, which refused it
C24 db1f84d generate.sh refused documented options (--override, -mc), and split or expanded the values it gave on
C24 07e5d6b generate.sh --path generated from the files in the root of the repository as well
C24 ad6c88b generate.sh --path . left out all directories
C13 df95b9b every file of a parse stayed open until it returned, so many includes ran out of file descriptors
'''
fixed=[]
for l in F.strip().split('\n'):
    p,c,w=l.split(' ',2)
    fixed.append(f'fixed: property={p} {c} {w}')
json.dump({'open':[],'fixed':fixed},open(os.path.join(os.path.dirname(__file__),'..','known-findings.json'),'w'),indent=1)

#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py)
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
C='src/core/c/'
prop('C01','Fixnum arithmetic and comparison are exact',
 'For all integers whose mathematical result fits the fixnum range, negation, addition, subtraction, multiplication, truncating division, remainder and modulo return exactly that result (remainder has the sign of the dividend, modulo the sign of the divisor, and both are zero when the divisor divides the dividend), and =, <, >, <=, >= agree with the order of the integers. The operands are never modified.',
 ['inputs'],'all pairs of 64-bit integers (division-like operations: non-zero divisor, not min/-1)',
 'the tests evaluate a few dozen constant expressions; sign combinations and extreme values are not enumerated',
 [C+'number.c',C+'char.c'],[('fixnum primitives',C+'number.c'),('character/integer conversion',C+'char.c')],observe=['result of the primitive'])
prop('C02','Pair, box and type-predicate primitives are exact',
 'Constructing a pair (box) and then reading it returns exactly the components given; every c[ad]{1,4}r accessor follows precisely the path its name spells on any object that has that path; set-car!, set-cdr! and set-box! change exactly the named component and nothing else; type predicates answer #t exactly on objects of their type and #f otherwise.',
 ['inputs','histories'],'every object graph and every access path',
 'tests read a few literal lists; a mis-spelled path or a mutation that disturbs another field is only visible on graphs they do not build',
 [C+'list.c',C+'box.c',C+'object.c'],[('accessors and mutators',C+'list.c'),('boxes',C+'box.c'),('predicates',C+'object.c')])
prop('C03','List operations compute the mathematical list function',
 'For every finite list: list? holds exactly for null-terminated chains; length, reverse, append, list copy, make-list, memq, association lookup and association update return the list (or element) that the mathematical definition gives, element for element by identity and in order; the association update replaces only the first matching entry, keeps the order of the others and appends a new entry at the end. None of these modifies its arguments.',
 ['inputs'],'all lists of any length with any elements (including shared and duplicate ones)',
 'needs induction over list length; tests use lists of at most a handful of elements',
 [C+'list.c'],[('list loops',C+'list.c')])
prop('C04','Vector operations and list/vector conversions are exact',
 'make-vector builds a vector of the given length all of whose slots hold the given value; vector-ref returns what was last stored at that index; vector-set! and vector-fill! change exactly the addressed slots; list->vector and vector->list are inverse of each other and preserve length, order and identity of elements.',
 ['inputs','histories'],'all lengths (including 0), all indices in range',
 'needs induction over the length; tests use vectors of length <= 4',
 [C+'vector.c'],[('vector primitives',C+'vector.c')])
prop('C05','String and symbol conversions are exact',
 'string-length, string-ref, string-set!, make-string, string->list, list->string, symbol->string, string->symbol, number->string and string->number compute the mathematical function on the character sequence: list->string and string->list are mutually inverse, number->string followed by string->number is the identity on every fixnum, and converting never changes the source object.',
 ['inputs','histories'],'all strings of non-NUL characters of any length, all fixnums',
 'tests convert a few short literals',
 [C+'string.c',C+'char.c'],[('string primitives',C+'string.c')])
prop('C06','eq? and equal? are the documented equivalences',
 'eq? holds exactly for identical objects or equal fixnums or equal characters; equal? holds exactly when the two objects are eq? or have the same type and, for strings, pairs, vectors and boxes, recursively equal contents; both are reflexive and symmetric and neither modifies an object.',
 ['inputs'],'all pairs of finite object graphs',
 'structural induction; tests compare a few literals',
 [C+'object.c'],[('equality',C+'object.c')])
prop('C07','Hash tables behave as finite maps',
 'After any sequence of insertions, updates, copies, clears and resizes an eq-hash table maps each key to the value last stored for it and no other key to anything: a lookup finds a key exactly when it was stored and not cleared since, the reported size is the number of distinct keys, the listing of keys and cells contains each exactly once, and a copy is independent of the original under later updates of either. Growing the table never loses, duplicates or changes an entry.',
 ['inputs','histories'],'all keys, all hash collisions, all table sizes and all operation sequences',
 'tests insert a few entries and never cross a resize with collisions',
 [C+'hashtable.c'],[('bucket chains and resize',C+'hashtable.c')],
 state=[('bucket invariant','each entry sits in the bucket its key hashes to, keys are unique',C+'hashtable.c')])
prop('C08','Hash codes respect equality',
 'Objects that are eq? have the same eq-hash code, strings with equal contents have the same equal-hash code, the code of an object does not change while the object does not, codes are non-negative, and hashing reads only the object itself.',
 ['inputs','histories'],'all objects',
 'a collision of codes for equal objects cannot be sampled; the tests never compare codes',
 [C+'hashtable.c'],[('hash functions',C+'hashtable.c')])
prop('C09','Symbol interning: same name, same object, forever',
 'Interning a name returns the one symbol object with that name: two interned names are the same object exactly when they are equal as strings, at every point of any sequence of internings including those at which the table grows; a symbol once interned is found again ever after, and generated symbols are never found.',
 ['histories','inputs'],'all names and all interning sequences (any table size)',
 'the table only grows after thousands of distinct symbols, which no test creates',
 [C+'symbol.c'],[('intern table',C+'symbol.c')],
 state=[('intern table invariant','a symbol is chained in the bucket of its hash modulo the current size',C+'symbol.c')])
prop('C10','Top-level environments are faithful maps; copies are independent',
 'Looking up a name in a top-level environment yields the binding most recently inserted for it and nothing when there is none; inserting or growing never loses or changes another binding; the listed names are exactly the bound ones; a (restricted) copy holds exactly the (selected) bindings with the values they had, with the requested mutability, and later assignments in either do not show in the other.',
 ['histories','inputs'],'all environments and all insert/copy/assign sequences',
 'tests use the base environment and a few definitions; growth and bucket collisions are not controlled',
 [C+'env.c'],[('top-level environment',C+'env.c')])
prop('C11','FASL serialization round-trips',
 'Writing any serializable object (null, booleans, eof, void, symbols, strings, fixnums, characters, pairs, vectors, the base record descriptor, records, and any nesting of them) and reading the bytes back consumes exactly the bytes written and yields an object of the same structure and contents; several objects written one after another are read back in order. The word encoding round-trips every 64-bit value.',
 ['inputs'],'all finite acyclic serializable objects; all 64-bit words',
 'the round-trip test enumerates about twenty literals',
 [C+'fasl.c'],[('writer and reader',C+'fasl.c')])
prop('C12','Reader and writer agree, and the reader stays in its buffers',
 'Printing any readable datum (booleans, fixnums, characters, strings with escapes, symbols, proper and improper lists, vectors, boxes) and reading it back yields an equal datum; the reader never stores outside its token buffer however long the token is; comments, datum comments and whitespace never change the datum read.',
 ['inputs'],'all readable data and all input texts',
 'tests read only their own source files',
 [C+'read.c',C+'print.c'],[('reader',C+'read.c'),('writer',C+'print.c')])
prop('C13','Syntax wrapping and stripping are inverse',
 'Converting any datum to syntax wraps every sub-datum exactly once and stripping the result gives back a structurally identical datum; wrapping leaves existing syntax objects as they are; flattening a syntax list returns its elements in order exactly when it is a (possibly nested) proper list and #f otherwise; inputs are not modified.',
 ['inputs'],'all finite data',
 'structural induction; tests touch a few small forms',
 [C+'syntax.c'],[('syntax conversion',C+'syntax.c')])
prop('C14','Records keep their fields and descriptors',
 'A record built from a field list has exactly these values at the corresponding indices and the given descriptor; field update changes exactly one field; a record type descriptor reports the name, parent, uid, sealed and opaque flags, field names and field mutability it was created with; record?, record-value and descriptor predicates classify values, descriptors and opaque records as documented.',
 ['inputs','histories'],'all descriptors and field lists of any length',
 'induction over the field count; tests use one to three fields',
 [C+'record.c'],[('records',C+'record.c')])
prop('C15','The syntax checker accepts exactly the well-formed programs',
 'The checker that guards evaluation returns normally exactly on expressions generated by the documented core grammar and raises an error on every other object, without ever dereferencing a part of the expression that does not exist; it does not modify the expression.',
 ['programs','inputs'],'all object graphs offered as expressions',
 'tests evaluate well-formed programs only',
 [C+'check.c'],[('syntax checker',C+'check.c')])
prop('C16','Free-variable analysis is exact',
 'For every core expression the set of variables the compiler computes as free is exactly the set defined by the scoping rules (a variable is free iff some occurrence is not bound by an enclosing lambda, case-lambda clause, or multiple-value binding), the list holds each free variable once per the merge rules, and for every procedure expression with free variables the table records exactly its free variables.',
 ['programs'],'all core expressions',
 'structural induction over programs; the JIT test checks a few dozen expressions',
 [C+'jitanalyze.c'],[('analysis',C+'jitanalyze.c')])
prop('C17','Compiler optimizations preserve the shape and meaning of programs',
 'Every optimization pass maps an expression in its input language to one in its output language, leaves quoted data and literals unchanged, transforms every sub-expression exactly once and in order, and applies only the documented meaning-preserving rewrites; identifiers introduced are fresh, and the input expression is not modified.',
 ['programs'],'all core expressions',
 'structural induction over programs; the JIT test compares a few dozen expressions',
 [C+'jitopt.c'],[('optimizer passes',C+'jitopt.c')])
prop('C18','Compile-time environments and code objects are exact',
 'Compile-time scopes map each identifier to the index at which it was bound (innermost first) and extending a scope never affects the outer one; labels are pairwise distinct; templates are retrieved at the index they were added with; resolving a code sequence redirects each branch to the first instruction after its label, and writing a code object keeps the instruction sequence and arity.',
 ['programs','histories'],'all scopes, label sets and instruction sequences',
 'induction over sequences; the JIT test inspects a few compiled forms',
 [C+'jitcommon.c',C+'jit.c'],[('compile-time environments, resolver',C+'jitcommon.c'),('code objects',C+'jit.c')])
prop('C19','Procedure objects keep code, captured cells and arity',
 'A procedure object reports the arity of its code and its own name; renaming returns a procedure with the same code, environment and captured variables under the new name and leaves the original untouched; capturing stores exactly the given cells.',
 ['inputs','histories'],'all procedures with any number of captured variables',
 'tests rename one procedure',
 [C+'procedure.c'],[('closures',C+'procedure.c')])
prop('C20','Library procedures reject wrong arguments instead of crashing',
 'Every procedure of the base library that takes checked arguments raises an error for every argument outside its documented domain (wrong type, index out of range, zero divisor, wrong list shape) and only then, so that no unchecked primitive is ever applied outside its domain; on arguments in the domain it returns the documented value.',
 ['inputs'],'all argument tuples',
 'the space of argument tuples; tests mostly call with good arguments',
 ['src/core/s/prelude.min'],[('checked wrappers','src/core/s/prelude.min')])
prop('C21','The bundled collector keeps exact books',
 'For any sequence of allocations, releases, root and destructor registrations the bundled garbage collector has exactly one live record per live block, finds the record of a block exactly while it is live, keeps its allocation accounting equal to the sum of live block sizes, and sweeping frees exactly the unmarked blocks; growing or shrinking its table never loses a record or its flags.',
 ['histories'],'all operation sequences and table sizes',
 'no test exercises the bundled collector at all',
 ['src/gc/minim-gc/gc-impl.c','src/gc/minim-gc/gc.c'],[('record table','src/gc/minim-gc/gc-impl.c')])
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))

"""What each property's check builds and runs."""
import concurrent.futures, os, shutil, subprocess
from check import ASAN, ASAN_UBSAN, CPUS, TSAN, VERIF, Builder, HARNESS, REPO, NoAnswer


def n(run, quick, thorough):
    return int(run.quick(quick, thorough) * run.scale)


def p15(run):
    b = Builder(run.work, ASAN_UBSAN)
    for s in ('p15', 'p16', 'values'):
        b.add(f'{HARNESS}/value/{s}.cpp')
    b.lib(parts=None, names=['GraphQLResponse', 'JSONResponse', 'Base64'])
    exe = b.link('values')
    run.shards(exe, n(run, 1600, 40000) if run.prop == 'P15' else n(run, 60000, 1500000), timeout=run.quick(300, 3600))


def p17(run):
    b = Builder(run.work, ASAN_UBSAN)
    b.add(f'{HARNESS}/value/p17.cpp')
    b.lib()
    exe = b.link('p17')
    run.shards(exe, n(run, 4000, 100000), timeout=run.quick(300, 3600))


def p02(run):
    b = Builder(run.work, [], opt='-O0')
    b.add(f'{HARNESS}/parse/p02.cpp')
    b.add(f'{REPO}/src/SyntaxTree.cpp', '-DGRAPHQL_VERIFY_PARSE_PARTS=28')
    exe = b.link('p02')
    # Each of the first 512 cases is a part of the texts over small alphabets.
    run.shards(exe, 512 + n(run, 4000, 300000), ['--sweep', str(run.quick(3, 1))], timeout=run.quick(300, 7200))


def engine(run, extra=(), flags=(), opt='-O0'):
    """The service described at run time, the reference executor, and the modes in these files."""
    b = Builder(run.work, list(flags), opt=opt)
    b.lib()
    for s in ('run', 'sut', 'probes') + tuple(extra):
        b.add(f'{HARNESS}/engine/{s}.cpp')
    for i in range(9):
        b.add(f'{HARNESS}/engine/conv.cpp', f'-DCONV={i}', name=f'conv{i}')
    return b.link('engine')


def p01(run):
    """The library with sanitizers, the harness without. The grammar is compiled with fewer checks and
    with optimization: the other ones make it many times slower."""
    few = ['-O1', '-fno-sanitize=null,alignment,vptr,object-size,function,pointer-overflow']
    plain = ['-fno-sanitize=all', '-O1']
    thorough = run.quick(False, True)
    b = Builder(run.work, ASAN_UBSAN, opt='-O0')
    b.lib(parts=None)
    b.add(f'{REPO}/src/SyntaxTree.cpp', '-DGRAPHQL_VERIFY_PARSE_PARTS=' + ('5' if thorough else '4'), *few)
    for s in ('run', 'sut', 'probes', 'p01'):
        b.add(f'{HARNESS}/engine/{s}.cpp', *plain, *(['-DP01_SCHEMAS'] if thorough else []))
    for i in range(9):
        b.add(f'{HARNESS}/engine/conv.cpp', f'-DCONV={i}', name=f'conv{i}')
    run.shards(b.link('hostile'), n(run, 480, 40000), timeout=run.quick(300, 7200))


def execution(quick, thorough):
    def check(run):
        run.shards(engine(run, ['exec']), n(run, quick, thorough), timeout=run.quick(400, 7200))
    return check


def generators(b, *main):
    """The units of the generators."""
    for s in ('SchemaLoader', 'GeneratorLoader', 'GeneratorUtil') + main:
        b.add(f'{REPO}/src/{s}.cpp', '-DUSE_STD_FILESYSTEM')
    b.lib(parts='3')


def p20(run):
    b = Builder(run.work, [], opt='-O0')
    generators(b, 'SchemaGenerator')
    b.add(f'{HARNESS}/gen/p20.cpp')
    b.compile()
    objects = {os.path.basename(u[1])[:-2] for u in b.units}
    gen = b.link('schemagen', '-lboost_program_options', only=objects - {'p20.cpp'})
    exe = b.link('p20', only=objects - {'SchemaGenerator.cpp'})
    run.shards(exe, n(run, 8000, 400000), ['--schemagen', gen], timeout=run.quick(300, 7200))


def generated(run, cases, one):
    """Runs the function for each of the cases, on all processors, and stops at a few violations."""
    only = cases if run.only is None else [run.only]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        for f in [pool.submit(one, i) for i in only]:
            f.result()


def command(cmd, timeout=600, **kw):
    """Once more if it was ended from outside."""
    for attempt in range(2):
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=timeout, **kw)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode != -9 and b'Killed' not in p.stderr:
            return p.returncode, (p.stdout + p.stderr).decode('utf8', 'replace')
    raise NoAnswer(f'no result of {cmd[0]}')


def tree(path):
    """The files below this directory, with their contents."""
    found = {}
    for root, _, names in os.walk(path):
        for n in names:
            f = os.path.join(root, n)
            found[os.path.relpath(f, path)] = open(f, 'rb').read()
    return found


def p18(run):
    b = Builder(run.work, [], opt='-O0')
    generators(b, 'SchemaGenerator')
    generator = {os.path.basename(u[1])[:-2] for u in b.units}
    b.add(f'{HARNESS}/gen/emit.cpp')
    b.add(f'{REPO}/src/SyntaxTree.cpp', '-DGRAPHQL_VERIFY_PARSE_PARTS=4', name='SyntaxTree4')
    engine_units = ['run', 'sut', 'exec', 'order', 'p04', 'p14']
    for s in engine_units:
        b.add(f'{HARNESS}/engine/{s}.cpp')
    b.add(f'{HARNESS}/gen/glue.cpp')
    header = f'{run.work}/glue.pch'
    b.units.append((f'{HARNESS}/gen/glue.h', header, ['-x', 'c++-header']))
    b.compile()
    b.units.pop()
    schemagen = b.link('schemagen', '-lboost_program_options', only=generator)
    emit = b.link('emit', only={'emit.cpp'})
    library = {'GraphQLService', 'Validation', 'Schema', 'Introspection', 'IntrospectionSchema', 'GraphQLResponse', 'Base64', 'JSONResponse'}
    common = [u[1] for u in b.units if os.path.basename(u[1])[:-2] in
              {f'{s}.cpp' for s in engine_units + ['glue', *library]} | {'SyntaxTree4'}]
    flags = ['clang++', '-std=c++17', '-O0', '-g1', '-w', '-I', f'{REPO}/include', '-I', HARNESS]
    per_case = run.quick(4, 12)

    def one(i):
        seed = run.seed * 100000 + i
        d = f'{run.work}/case{i}'
        os.makedirs(f'{d}/gen/inc')
        os.makedirs(f'{d}/again/inc')
        rc, text = command([emit, '--seed', str(seed), '--out', d])
        if rc:
            raise NoAnswer(text)
        options = open(f'{d}/options').read().split('\n')[:-1]
        schema = open(f'{d}/schema.graphql', errors='replace').read()
        replay = f'python3 {VERIF}/check.py P18 {run.tier} --only {i}'

        def wrong(what, detail=''):
            run.violation(what, f'options: {" ".join(options)}\nschema:\n{schema}\n{detail}', replay)
        for into in ('gen', 'again'):
            rc, text = command([schemagen, '-s', f'{d}/schema.graphql'] + options, cwd=f'{d}/{into}')
            if rc:
                return wrong(f'schemagen refuses a valid schema: {text.strip()[:300]}')
        if tree(f'{d}/gen') != tree(f'{d}/again'):
            return wrong('two runs of schemagen differ')
        run.count('schemas')
        objects = []
        for src in sorted(f for f in tree(f'{d}/gen') if f.endswith('.cpp')) + ['driver.cpp']:
            path = f'{d}/{src}' if src == 'driver.cpp' else f'{d}/gen/{src}'
            obj = f'{d}/{src}.o'
            rc, text = command(flags + ['-I', f'{d}/gen/inc', '-I', f'{d}/gen'] + (['-include-pch', header] if src == 'driver.cpp' or i % 6 else []) + ['-c', path, '-o', obj])
            if rc:
                return wrong(f'the generated code does not compile: {" ".join(l for l in text.splitlines() if "error:" in l)[:600]}', text[-4000:])
            run.count('generated files compiled')
            objects.append(obj)
        rc, text = command(['clang++', '-fuse-ld=lld', '-o', f'{d}/service'] + objects + common + ['-lpthread'])
        if rc:
            return wrong('the generated code does not link: ' + text[-600:])
        run.execute(f'{d}/service', per_case, i, seed, timeout=run.quick(240, 1200))
        if not run.keep:
            shutil.rmtree(d)

    generated(run, range(n(run, 10, 400)), one)


def p19(run):
    b = Builder(run.work, [], opt='-O0')
    generators(b, 'RequestLoader', 'ClientGenerator')
    # The requests are read with another grammar than the schemas.
    b.units = [u for u in b.units if not u[0].endswith('/SyntaxTree.cpp')]
    b.add(f'{REPO}/src/SyntaxTree.cpp', '-DGRAPHQL_VERIFY_PARSE_PARTS=11', name='SyntaxTree11')
    generator = {os.path.basename(u[1])[:-2] for u in b.units}
    b.add(f'{HARNESS}/gen/emitclient.cpp')
    b.add(f'{REPO}/src/SyntaxTree.cpp', '-DGRAPHQL_VERIFY_PARSE_PARTS=4', name='SyntaxTree4')
    b.add(f'{HARNESS}/gen/clientglue.cpp')
    for s in ('GraphQLClient', 'GraphQLResponse', 'JSONResponse', 'Base64'):
        b.add(f'{REPO}/src/{s}.cpp', *ASAN_UBSAN, name=f'{s}-checked')
    header = f'{run.work}/clientglue.pch'
    b.units.append((f'{HARNESS}/gen/clientglue.h', header, ['-x', 'c++-header', *ASAN_UBSAN]))
    b.compile()
    b.units.pop()
    clientgen = b.link('clientgen', '-lboost_program_options', only=generator)
    emit = b.link('emitclient', only={'emitclient.cpp'})
    common = [u[1] for u in b.units if '-checked' in u[1] or os.path.basename(u[1])[:-2] in {'clientglue.cpp', 'SyntaxTree4'}]
    flags = ['clang++', '-std=c++17', '-O0', '-g1', '-w', *ASAN_UBSAN, '-I', f'{REPO}/include', '-I', HARNESS, '-include-pch', header]
    per_case = run.quick(60, 600)

    def one(i):
        seed = run.seed * 100000 + i
        d = f'{run.work}/case{i}'
        for into in ('gen', 'again', 'refused'):
            os.makedirs(f'{d}/{into}/inc')
            os.makedirs(f'{d}/{into}/src')
        rc, text = command([emit, '--seed', str(seed), '--out', d])
        if rc:
            raise NoAnswer(text)
        options = open(f'{d}/options').read().split('\n')[:-1]
        schema = open(f'{d}/schema.graphql', errors='replace').read()
        request = open(f'{d}/request.graphql', errors='replace').read()
        replay = f'python3 {VERIF}/check.py P19 {run.tier} --only {i}'

        def wrong(what, detail=''):
            run.violation(what, f'options: {" ".join(options)}\nschema:\n{schema}\nrequest:\n{request}\n{detail}', replay)
        for into in ('gen', 'again'):
            rc, text = command([clientgen, '-s', f'{d}/schema.graphql', '-r', f'{d}/request.graphql'] + options, cwd=f'{d}/{into}')
            if rc:
                return wrong(f'clientgen refuses a valid schema and request: {text.strip()[:300]}')
        if tree(f'{d}/gen') != tree(f'{d}/again'):
            return wrong('two runs of clientgen differ')
        run.count('clients')
        for k, what in enumerate(open(f'{d}/what', errors='replace').read().split('\n')[:-1]):
            bad = f'{d}/invalid{k}.graphql'
            rc, text = command([clientgen, '-s', f'{d}/schema.graphql', '-r', bad] + options, cwd=f'{d}/refused')
            run.count('invalid requests')
            if rc == 0:
                wrong(f'clientgen accepts an invalid request: {what}', open(bad, errors='replace').read())
        objects = []
        for src in sorted(f for f in tree(f'{d}/gen') if f.endswith('.cpp')) + ['driver.cpp']:
            path = f'{d}/{src}' if src == 'driver.cpp' else f'{d}/gen/{src}'
            obj = f'{d}/{os.path.basename(src)}.o'
            rc, text = command(flags + ['-I', f'{d}/gen/inc', '-I', f'{d}/gen', '-c', path, '-o', obj])
            if rc:
                return wrong(f'the generated code does not compile: {" ".join(l for l in text.splitlines() if "error:" in l)[:600]}', text[-4000:])
            run.count('generated files compiled')
            objects.append(obj)
        rc, text = command(['clang++', '-fuse-ld=lld', *ASAN_UBSAN, '-o', f'{d}/client'] + objects + common + ['-lpthread'])
        if rc:
            return wrong('the generated code does not link: ' + text[-600:])
        run.execute(f'{d}/client', per_case, i, seed, timeout=run.quick(120, 1200))
        if not run.keep:
            shutil.rmtree(d)

    generated(run, range(n(run, 24, 1000)), one)


EXECUTION = ('random schemas served by objects described at run time, random valid documents, variables and accessor results, '
             'compared with an independent executor; distinct: requests')

CHECKS = {
    'P01': dict(run=p01,
                technique='runtime monitoring: ASan, UBSan and LSan over histories of hostile documents, variables, names and encoded texts on one service, with the kind of outcome checked',
                note='Held on the inputs run, of at most 20 kB and nested at most 60 levels deep.',
                rule='valid, broken, mutated, spliced, bulky and random texts with hostile variables and operation names through parse, validate, resolve, subscribe and deliver, and through the decoders; distinct: documents'),
    'P02': dict(run=p02,
                technique='runtime monitoring: random, mutated and all short texts through every entry point of the parser, verdict and tree compared with an independent parser',
                note='Complete for sequences of up to four (every third one of five) parts in 13 small grammars; sampled beyond. Left open: lone carriage returns (known finding), type definitions, characters in comments.',
                rule='random documents, token and character mutations of them, and all short texts over 13 alphabets, compared with a reference lexer and parser; distinct: trees of more than five nodes'),
    'P03': dict(run=execution(1200, 40000),
                technique='runtime monitoring: generated valid operations against generated schemas, observed by the validator\'s verdict and the response',
                note='Held on the documents run. Documents are valid by construction and leave out single values for list types and variables in defaults (see DESIGN.md); those with merged composite fields are only validated.',
                rule=EXECUTION),
    'P04': dict(run=lambda run: run.shards(engine(run, ['p04']), n(run, 900, 40000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: documents with one rule broken by mutation, observed by the response, the errors and the recorded invocations of the service',
                note='Held for the 51 kinds of mutations in evidence, applied at random places of random valid documents.',
                rule='one of 51 mutations of random valid documents against random schemas, through validate, resolve and subscribe; distinct: documents'),
    'P05': dict(run=lambda run: run.shards(engine(run, ['p05'], flags=ASAN), n(run, 250, 12000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: histories of requests on one long-lived service under ASan, each answer compared with that of a service made for it alone',
                note='Held on the histories run: valid, invalid, failing and repeated documents, through every entry point, with parsed documents reused or not.',
                rule='random histories of requests to one service, each answer compared with that of a fresh service; distinct: requests'),
    'P06': dict(run=execution(1600, 50000),
                technique='runtime monitoring: responses of the real service compared with an independent reference executor over generated schemas, documents and data',
                note='Held on the requests run; composite fields selected twice with the same key are left out (known finding).',
                rule=EXECUTION),
    'P07': dict(run=lambda run: run.shards(engine(run, ['order']), n(run, 500, 20000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: the same request with deferred and asynchronous launch and with accessors completing at once, lazily or on other threads in any order, responses compared',
                note='Held for the delivery plans run, including one thread which completes all promises in a random order.',
                rule='random requests, each with up to eight plans of launch policy and completion of accessors; distinct: requests with a plan'),
    'P08': dict(run=execution(2000, 60000),
                technique='runtime monitoring: fault injection in accessors, results and arguments, with the errors and the remaining data compared with an independent reference executor',
                note='Held on the faults injected: accessors, enum results, list elements and selection set callbacks, singly and together, synchronous or on other threads.',
                rule=EXECUTION + '; faults are a function of object, field and arguments'),
    'P09': dict(run=execution(2000, 60000),
                technique='runtime monitoring: recorded accessor invocations and arguments compared with an independent evaluation of literals, variables and defaults',
                note='Held on the requests run, for all list and null wrappers up to two lists deep; omitted variables in positions with defaults are left out (known finding).',
                rule=EXECUTION + '; variables of wrong types are injected'),
    'P10': dict(run=lambda run: run.shards(engine(run, ['order']), n(run, 700, 30000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: an order checker over the recorded begin and end of accessors of mutations under random launch policies and delays',
                note='Held on the mutations run: all events of a root field and below it precede those of the next.',
                rule='random mutations with faults, launch policies and delays; distinct: requests'),
    'P11': dict(run=lambda run: run.shards(engine(run, ['p11'], flags=TSAN), n(run, 250, 12000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: threads sharing one service under TSan, each checking its own responses, and exact counts of delivered events',
                note='Held for the schedules run (their number is in the evidence); construction and destruction of a service are done by one thread.',
                rule='three to five threads resolving and validating shared and own documents, subscribing, unsubscribing and delivering on one service; distinct: orders in which the threads took turns'),
    'P12': dict(run=lambda run: run.shards(engine(run, ['p12'], flags=ASAN), n(run, 250, 10000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: histories of subscribe, unsubscribe and deliver under ASan, callbacks compared with a model of the active subscriptions',
                note='Held on the histories run; filters compare arguments and directives exactly.',
                rule='random histories on one service of subscribe, unsubscribe and deliver calls of all overloads; distinct: histories'),
    'P13': dict(run=execution(900, 30000),
                technique='runtime monitoring: recorded accessor and selection set events with their directives, state and context compared with an independent reference, and their order checked',
                note='Held on the requests run.',
                rule=EXECUTION),
    'P14': dict(run=lambda run: run.shards(engine(run, ['p14']), n(run, 900, 30000), timeout=run.quick(300, 7200)),
                technique='runtime monitoring: answers to random introspection queries compared with an independent evaluation over the schema description',
                note='Held on the schemas and queries run; looking up names which do not exist is left out.',
                rule='the full introspection query and random subsets, aliases, fragments and look-ups by name, on random schemas; distinct: requests'),
    'P15': dict(run=p15, technique='runtime monitoring: random operation histories on the real value type under ASan+UBSan against an executable model',
                note='Held on the histories run (count, seed and distinct values are in the evidence); moved-from values other than releases are not observed.',
                rule='random histories of 20-80 operations on six values; after each operation every value is walked '
                'and compared with the model, pairwise equality included; distinct: canonical forms of values with more than two nodes'),
    'P16': dict(run=p15, technique='runtime monitoring: round trips and differential reading of generated and mutated texts under ASan+UBSan against an independent JSON codec',
                note='Held on the values and texts run; texts with integers beyond 32 bits, duplicate keys, lone surrogates or invalid UTF-8 are only checked for memory errors.',
                rule='random values serialized and read back by the library and by an independent reader, random and mutated '
                'texts read by both; distinct: canonical forms of the values'),
    'P17': dict(run=p17, technique='runtime monitoring: exhaustive short and random long inputs under ASan+UBSan against an independent Base64 codec, and echo requests',
                note='Complete for byte strings up to 2 and texts up to 3 characters of the alphabet; sampled beyond. Padding may be omitted altogether.',
                rule='all byte strings up to length 2, all texts up to length 3 over 73 characters, random and mutated longer '
                'ones, against an independent codec, and through requests; distinct: the random byte strings and one in 97 of the short texts'),
    'P18': dict(run=p18, technique='runtime monitoring: services generated by the real generator, compiled and run, their responses, accessor calls, errors and introspection compared with an independent executor',
                note='Held for the generated schemas (their number is in the evidence), of which the names stay apart in C++; the options of the generator are drawn at random.',
                rule='random schemas and generator options, the generated code implemented by accessors which record and produce values, through the monitors of P04, P06, P08, P09, P10, P13 and P14, and concurrent requests; distinct: requests'),
    'P19': dict(run=p19, technique='runtime monitoring: clients generated by the real generator, compiled with ASan and UBSan and run on random variables, conforming and broken responses and errors, compared with an independent model',
                note='Held for the generated clients (their number is in the evidence), of which the names stay apart in C++. Objects and lists of other kinds are read as empty, and not observed.',
                rule='random schemas and request documents, each with a compiled client, random variables, responses made for the document, and responses with one leaf of another kind; invalid documents through the generator; distinct: variables and responses'),
    'P20': dict(run=p20, technique='runtime monitoring: generated schema documents through the real loader and generator, what was loaded compared with the model of the document, and documents with one inconsistency with the refusal',
                note='Held on the documents run; redefined names and several deprecations of one field are left out.',
                rule='random schemas printed with random layout, order, extensions and directives, a third of them with one of 22 kinds of inconsistencies; distinct: documents'),
}

W, L, C, CM, P, B = 'src/waiter.rs', 'src/launch.rs', 'src/config.rs', 'src/config_manip.rs', 'src/bin/pa2.rs', 'src/bin_support.rs'
S = [
    dict(id='negative-priority-consumes', prop='C07', file=W, old='output_port, input_port.breakable)?',
         new='output_port, if input_port.priority < 0 { Breakable::Consume } else { input_port.breakable })?',
         needs='a connection into a junction with a negative priority, whose reader goes away',
         breaks='the way of closing that the description gives is ignored for inputs of a negative priority: what writes there is drained instead of being ended',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:y | [-1]junction:j | launch:h | drain:d"},
 "faucet": {"f": {"source": ""}},
 "launch": {"y": {"cmd": "yes"}, "h": {"cmd": "head", "arg": ["-n", "2"]}},
 "drain": {"d": {"destination": "out"}}}
X
timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err
[ $? -lt 100 ] || fail "the pipeline does not end"
[ "$(cat out)" = "$(printf 'y\\ny')" ] || fail "wrong output"
'''),
    dict(id='second-link-of-a-pair', prop='C07', edits=[
        (W, '    let mut last: Option<(usize, OutputPort)> = None;\n    for connection', '    let mut last: Option<(usize, OutputPort)> = None;\n    let mut joined: HashSet<(usize, usize)> = HashSet::new();\n    for connection'),
        (W, 'if let Some((src_id, src_output_port)) = last {', 'if let Some((src_id, src_output_port)) = last.take().filter(|l| joined.insert((l.0, dst_id))) {')],
         needs='two connections between the same two components, such as standard output and standard error into one junction',
         breaks='only the first of several connections between the same two components is made',
         demo='''
cat > p.sh <<'X'
echo o; echo e >&2
X
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:p | junction:j | drain:d", "b": "launch:p[E] | junction:j"},
 "faucet": {"f": {"source": ""}},
 "launch": {"p": {"cmd": "sh", "arg": ["p.sh"]}},
 "drain": {"d": {"destination": "out"}}}
X
timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err || fail "failed"
[ "$(sort out | tr '\\n' ' ')" = "e o " ] || fail "got $(tr '\\n' ' ' < out)"
'''),
    dict(id='empty-argument', prop='C08', file=W, old='if cfg.arg.is_empty() { None } else { Some(cfg.arg) }',
         new='Some(cfg.arg.into_iter().filter(|a| !a.is_empty()).collect::<Vec<String>>()).filter(|a| !a.is_empty())',
         needs='a launch with an argument that is the empty string',
         breaks='empty arguments are dropped, so that the ones after them move up',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:p | drain:d"},
 "faucet": {"f": {"source": ""}},
 "launch": {"p": {"cmd": "printf", "arg": ["[%s]", "a", "", "b"]}},
 "drain": {"d": {"destination": "out"}}}
X
timeout -k 1 20 "$PA2" process --config c.json < /dev/null || fail "failed"
[ "$(cat out)" = "[a][][b]" ] || fail "got $(cat out)"
'''),
    dict(id='empty-variable', prop='C08', file=L, old='Some(env) => { child_builder.envs(env.into_iter()); }',
         new='Some(env) => { child_builder.envs(env.into_iter().filter(|(_, v)| !v.as_ref().is_empty())); }',
         needs='a variable configured with an empty value which pipeawesome itself was started with',
         breaks='a variable that is configured to be empty keeps the inherited value',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:p | drain:d"},
 "faucet": {"f": {"source": ""}},
 "launch": {"p": {"cmd": "sh", "arg": ["-c", "echo \\"[$AAA][$BBB]\\""], "env": {"AAA": "", "BBB": "x"}}},
 "drain": {"d": {"destination": "out"}}}
X
AAA=inherited timeout -k 1 20 "$PA2" process --config c.json < /dev/null || fail "failed"
[ "$(cat out)" = "[][x]" ] || fail "got $(cat out)"
'''),
    dict(id='directory-of-one-letter', prop='C08', file=W, old='                        cfg.path,\n',
         new='                        cfg.path.filter(|p| p.trim_start_matches("./").len() > 1),\n',
         needs='a launch whose directory has a name of one letter',
         breaks='a configured directory that looks like "." is ignored',
         demo='''
mkdir s
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:p | drain:d"},
 "faucet": {"f": {"source": ""}},
 "launch": {"p": {"cmd": "pwd", "path": "s"}},
 "drain": {"d": {"destination": "out"}}}
X
timeout -k 1 20 "$PA2" process --config c.json < /dev/null || fail "failed"
case "$(cat out)" in */s) ;; *) fail "ran in $(cat out)";; esac
'''),
    dict(id='errors-of-one-source', prop='C13', file=W, old='                v.sort_by(|e1, e2| {',
         new='                v.dedup_by(|e1, e2| e1.caused_by_error().map(|e| e.journey_source().copied()) == e2.caused_by_error().map(|e| e.journey_source().copied()));\n                v.sort_by(|e1, e2| {',
         needs='two launches whose programs cannot be started',
         breaks='of several failures with the same origin in the sense of the error only one is printed',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:p | drain:d", "b": "faucet:g | launch:q | drain:e"},
 "faucet": {"f": {"source": ""}, "g": {"source": ""}},
 "launch": {"p": {"cmd": "./missing1"}, "q": {"cmd": "./missing2"}},
 "drain": {"d": {"destination": "out1"}, "e": {"destination": "out2"}}}
X
timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err && fail "no failure"
grep -qi launch:p err && grep -qi launch:q err || fail "not both: $(cat err)"
'''),
    dict(id='ten-errors', prop='C13', file=W, old='                    xs.push(x);\n', new='                    if xs.len() < 10 { xs.push(x); }\n',
         needs='more than ten components that fail',
         breaks='at most ten failures are reported',
         demo='''
c='"z": "faucet:z | drain:z"'; l=''; d='"z": {"destination": "z"}'; f='"z": {"source": ""}'
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13; do
    c="$c, \\"c$i\\": \\"faucet:f$i | drain:d$i\\""; f="$f, \\"f$i\\": {\\"source\\": \\"missing$i\\"}"; d="$d, \\"d$i\\": {\\"destination\\": \\"o$i\\"}"
done
echo "{\\"connection\\": {$c}, \\"faucet\\": {$f}, \\"drain\\": {$d}}" > c.json
timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err && fail "no failure"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13; do grep -qi "faucet:f$i " err || fail "not all: $(cat err)"; done
'''),
    dict(id='error-without-name', prop='C13', file=B, old='(Some(waiter_src), _, _) => (component_type_name_to_string(waiter_src.0, waiter_src.1)',
         new='(Some(waiter_src), _, _) => (component_type_name_to_string(waiter_src.0, id_to_component_type_name.values().find(|x| x.0 == *waiter_src.0).map(|x| x.1.as_str()).unwrap_or(waiter_src.1))',
         needs='a program that cannot be started among several launches',
         breaks='the error names some launch instead of the one that failed',
         demo='''
c='"a": "faucet:f | launch:p1'; l=''
for i in 2 3 4 5 6 7 8 9; do c="$c | launch:p$i"; l="$l, \\"p$i\\": {\\"cmd\\": \\"cat\\"}"; done
echo "{\\"connection\\": {$c | drain:d\\"}, \\"faucet\\": {\\"f\\": {\\"source\\": \\"\\"}}, \\"launch\\": {\\"p1\\": {\\"cmd\\": \\"./missing\\"}$l}, \\"drain\\": {\\"d\\": {\\"destination\\": \\"o\\"}}}" > c.json
for i in 1 2 3 4 5; do
    timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err && fail "no failure"
    grep -qi launch:p1 err || fail "$(cat err)"
done
'''),
    dict(id='one-fault-of-many', prop='C14', file=P, old='return Err(format!("Process {}", errs.join("\\n * ")));\n            }\n            let broken',
         new='return Err(format!("Process {}", errs[0]));\n            }\n            let broken',
         needs='two connection texts that cannot be parsed',
         breaks='processing names only one of them',
         demo='''
cat > c.json <<'X'
{"connection": {"aaa": "faucet:f | wrong", "bbb": "faucet:g | wrong"},
 "faucet": {"f": {"source": ""}}, "drain": {}}
X
timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err && fail "no failure"
grep -q aaa err && grep -q bbb err || fail "not both: $(cat err)"
'''),
    dict(id='draw-with-missing-buffer', prop='C14', edits=[
        (P, '''            let errs = Config::lint(&mut config).into_iter()
                .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
                .map(|c| c.to_string()).collect::<Vec<String>>();
            if errs.is_empty() {
                return Ok(config).map(|config| {''', '''            let errs = Config::lint(&mut config).into_iter()
                .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. } | ConfigLintWarning::RegulatorWatchingMissingBuffer { .. }))
                .map(|c| c.to_string()).collect::<Vec<String>>();
            if errs.is_empty() {
                return Ok(config).map(|config| {''')],
         needs='drawing a description in which a regulator monitors a buffer that is in no connection',
         breaks='the faulty description is drawn instead of refused',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | regulator:r | drain:d"},
 "faucet": {"f": {"source": ""}}, "regulator": {"r": {"buffered": [1, 2], "monitored_buffers": ["nosuch"]}}, "drain": {"d": {"destination": "x"}}}
X
timeout -k 1 20 "$PA2" graph --config c.json < /dev/null > out 2> err && fail "drawn"
grep -q nosuch err || fail "not named: $(cat err)"
'''),
    dict(id='first-monitored-buffers', prop='C15', file=C, old='for mb in kv.1.monitored_buffers.iter() {', new='for mb in kv.1.monitored_buffers.iter().take(3) {',
         needs='a regulator that monitors four buffers, of which the last is in no connection',
         breaks='only the first buffers of a regulator are looked at',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | regulator:r | buffer:b | drain:d"},
 "faucet": {"f": {"source": ""}}, "regulator": {"r": {"buffered": [1, 2], "monitored_buffers": ["b", "b", "b", "nosuch"]}}, "drain": {"d": {"destination": "x"}}}
X
timeout -k 1 20 "$PA2" config --config c.json lint < /dev/null > out 2> err && fail "no warning"
grep -q nosuch err || fail "not named: $(cat err)"
'''),
    dict(id='warning-ends-search', prop='C15', file=C, old='                        continue;\n', new='                        break;\n',
         needs='a component that is fine and comes before one that is not',
         breaks='the search for components that are in no connection stops early',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | drain:a", "b": "faucet:f | drain:b", "c": "faucet:f | drain:c", "d": "faucet:f | drain:d", "e": "faucet:f | drain:e", "f": "faucet:f | drain:f"},
 "faucet": {"f": {"source": ""}}, "drain": {"a": {"destination": "x"}, "b": {"destination": "x"}, "c": {"destination": "x"}, "d": {"destination": "x"}, "e": {"destination": "x"}, "f": {"destination": "x"},
 "un1": {"destination": "x"}, "un2": {"destination": "x"}, "un3": {"destination": "x"}, "un4": {"destination": "x"}, "un5": {"destination": "x"}, "un6": {"destination": "x"}}}
X
timeout -k 1 20 "$PA2" config --config c.json lint < /dev/null > out 2> err && fail "no warning"
for b in 1 2 3 4 5 6; do grep -q "un$b" err || fail "un$b not named: $(cat err)"; done
'''),
    dict(id='env-merged', prop='C16', file=C, old='lc.env = std::mem::take(&mut env)', new='lc.env.extend(std::mem::take(&mut env))',
         needs='setting the variables of a launch which has other ones',
         breaks='variables that were there before stay there',
         demo='''
echo '{"launch": {"p": {"cmd": "x", "env": {"OLD": "1"}}}}' > c.json
"$PA2" config --config c.json launch --id p env NEW=2 < /dev/null > out || fail "failed"
grep -q NEW out || fail "not set"
grep -q OLD out && fail "still there: $(cat out)"
'''),
    dict(id='command-drops-arguments', prop='C16', file=C, old='.and_modify(|mut lc| lc.command = Some(command.clone()))', new='.and_modify(|mut lc| { if lc.command.as_ref() != Some(&command) { lc.arg.clear(); } lc.command = Some(command.clone()) })',
         needs='setting another command of a launch which has arguments',
         breaks='setting the command forgets the arguments',
         demo='''
echo '{"launch": {"p": {"cmd": "x", "arg": ["keep"]}}}' > c.json
"$PA2" config --config c.json launch --id p command y < /dev/null > out || fail "failed"
grep -q keep out || fail "the arguments are gone: $(cat out)"
'''),
    dict(id='regulator-forgets-buffers', prop='C16', file=C, old='                x.buffered = reg_config.buffered;\n', new='                if x.buffered.is_none() { x.monitored_buffers.clear(); }\n                x.buffered = reg_config.buffered;\n',
         needs='setting the marks of a regulator which has monitored buffers but no marks yet',
         breaks='the list of monitored buffers is lost',
         demo='''
echo '{"regulator": {"r": {"buffered": null, "monitored_buffers": ["keep"]}}}' > c.json
"$PA2" config --config c.json regulator --id r watermark 1 2 < /dev/null > out || fail "failed"
grep -q keep out || fail "the buffers are gone: $(cat out)"
'''),
    dict(id='added-name-used-twice', prop='C26', file=CM, old='''                        existing_keys.insert(new_key.clone());
                        acc.insert(
                            new_key,
                            DeserializedConnection::Connections(vec![left_start, left_end])''', new='''                        acc.insert(
                            new_key,
                            DeserializedConnection::Connections(vec![left_start, left_end])''',
         needs='two outputs that are each connected to several inputs',
         breaks='the link to the second added junction replaces the one to the first, whose data then goes nowhere',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | drain:a", "b": "faucet:f | drain:b", "c": "faucet:g | drain:c", "d": "faucet:g | drain:d"},
 "faucet": {"f": {"source": "in1"}, "g": {"source": "in2"}},
 "drain": {"a": {"destination": "a"}, "b": {"destination": "b"}, "c": {"destination": "c"}, "d": {"destination": "d"}}}
X
echo 1 > in1; echo 2 > in2
timeout -k 1 20 "$PA2" process --config c.json < /dev/null 2> err || fail "failed: $(cat err)"
[ "$(cat a b c d | tr '\\n' ' ')" = "1 1 2 2 " ] || fail "got $(cat a b c d | tr '\\n' ' ')"
'''),
    dict(id='shared-output-ends-early', prop='C26', file=CM, old='component_name: end_component_name, input_port: end_input_port, connection_set: None };\n\n                    acc.insert(k, DeserializedConnection::Connections(vec![right_start',
         new='component_name: end_component_name, input_port: InputPort { breakable: Breakable::Terminate, priority: end_input_port.priority }, connection_set: None };\n\n                    acc.insert(k, DeserializedConnection::Connections(vec![right_start',
         needs='an output that is connected twice, once with finish, where that reader goes away',
         breaks='the way of closing that is given for a connection is lost when a junction is put in',
         demo='''
cat > c.json <<'X'
{"connection": {"a": "faucet:f |F| launch:h | drain:a", "b": "faucet:f |F| launch:c | drain:b"},
 "faucet": {"f": {"source": "in"}},
 "launch": {"h": {"cmd": "head", "arg": ["-n", "1"]}, "c": {"cmd": "cat"}},
 "drain": {"a": {"destination": "a"}, "b": {"destination": "b"}}}
X
seq 300000 > in
timeout -k 1 50 "$PA2" process --config c.json < /dev/null 2> err
[ "$(wc -l < b)" = 300000 ] || fail "only $(wc -l < b) lines"
'''),
]

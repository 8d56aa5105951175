C, P, IO = 'src/config.rs', 'src/bin/pa2.rs', 'src/config_io.rs'
S = [
    dict(id='variable-with-equals', prop='C30', file=P, old="s.split_once('=')", new="s.rsplit_once('=')",
         needs='config launch env with a variable whose value has an equals sign in it',
         breaks='NAME=VALUE is split at the last equals sign, so that part of the value becomes part of the name',
         demo='''
echo '{}' > c.json
"$PA2" config --config c.json launch --id x env 'OPTS=a=b' 'T=1' > out || fail "failed"
python3 - <<'X' || fail "got $(cat out)"
import json,sys
sys.exit(json.load(open('out'))['launch']['x']['env'] != {'OPTS': 'a=b', 'T': '1'})
X
'''),
    dict(id='first-variable-wins', prop='C30', file=P, old='hm.entry(k).and_modify(|x| std::mem::swap(x, &mut v)).or_insert(v);',
         new='hm.entry(k).and_modify(|x: &mut String| if x.is_empty() { std::mem::swap(x, &mut v) }).or_insert(v);',
         needs='config launch env with the same variable twice, the first time not empty',
         breaks='the first of several values of a variable is kept instead of the last',
         demo='''
echo '{}' > c.json
"$PA2" config --config c.json launch --id x env 'A=1' 'B=2' 'A=3' > out || fail "failed"
python3 - <<'X' || fail "got $(cat out)"
import json,sys
sys.exit(json.load(open('out'))['launch']['x']['env'] != {'A': '3', 'B': '2'})
X
'''),
    dict(id='large-watermark', prop='C30', file=P, old='lsc.value_of("MAX").map(|a| a.parse::<usize>().ok()).flatten()',
         new='lsc.value_of("MAX").map(|a| a.parse::<u16>().map(usize::from).ok()).flatten()',
         needs='an upper watermark above 65535',
         breaks='large upper watermarks are refused although they are whole numbers',
         demo='''
echo '{}' > c.json
"$PA2" config --config c.json regulator --id x watermark 10 100000 > out || fail "failed"
grep -q 100000 out || fail "got $(cat out)"
'''),
    dict(id='file-with-dash', prop='C30', file=IO, old='if config_in == "-" {', new="if config_in.starts_with('-') {",
         needs='a configuration file whose name begins with a dash',
         breaks='standard input is read instead of a file whose name begins with a dash',
         demo='''
echo '{"launch": {"k": {"cmd": "kept"}}}' > ./-c.json
"$PA2" config --config=-c.json launch --id x command ls > out < /dev/null || fail "failed"
grep -q kept out || fail "got $(cat out)"
'''),
    dict(id='legend-and-diagram', prop='C30', file=P, old='_ => GraphMode::Full(legend_border)', new='_ => GraphMode::Full(legend_border && !legend_only)',
         needs='graph with --legend-only, --diagram-only and --legend-border together',
         breaks='the border around the legend is not drawn when both parts are asked for by their options',
         demo='''
echo '{"connection": {"a": "faucet:f | drain:d"}, "faucet": {"f": {"source": ""}}, "drain": {"d": {"destination": ""}}}' > c.json
"$PA2" graph --config c.json --legend-only --diagram-only --legend-border > out || fail "failed"
grep -q "cluster_legend " out || fail "no border: $(grep legend out | head -3)"
'''),
    dict(id='small-priorities', prop='C28', file=C, old='{ n.parse().unwrap_or(0) }', new='{ n.parse::<i8>().map(isize::from).unwrap_or(0) }',
         needs='a connection text with a priority beyond 127 or below -128',
         breaks='larger priorities become 0',
         demo='''
echo '{"connection": {"a": "faucet:f | [500]junction:j | drain:d"}, "faucet": {"f": {"source": ""}}, "drain": {"d": {"destination": ""}}}' > c.json
"$PA2" config --config c.json manipulate > out || fail "failed"
grep -q '"priority":500' out || fail "got $(cat out)"
'''),
    dict(id='many-finishes', prop='C28', edits=[(C, 'if let Some(breakable) = breakable {\n                    acc.push(x.convert', 'if let Some(breakable) = breakable.filter(|b| *b != Breakable::Finish || acc.len() < 4) {\n                    acc.push(x.convert')],
         needs='a connection text with |F| in front of the fifth or a later component',
         breaks='the way of closing Finish is ignored far into a text',
         demo='''
echo '{"connection": {"a": "faucet:f | l:a | l:b | l:c |F| l:e |F| drain:d"}, "faucet": {"f": {"source": ""}}, "launch": {"a": {"cmd": "cat"}, "b": {"cmd": "cat"}, "c": {"cmd": "cat"}, "e": {"cmd": "cat"}}, "drain": {"d": {"destination": ""}}}' > c.json
"$PA2" config --config c.json manipulate > out || fail "failed"
[ "$(grep -o '"finish"' out | wc -l)" = 2 ] || fail "got $(cat out)"
'''),
    dict(id='word-in-a-name', prop='C28', file=C, old="'A'..='Z' | '0'..='9' | '_' ]+) { s.to_string() }", new="'A'..='Z' | '0'..='9' | '_' ]+) { s.strip_prefix(\"launch_\").unwrap_or(s).to_string() }",
         needs='a component whose name begins with launch_',
         breaks='the kind is taken off the front of names',
         demo='''
echo '{"connection": {"a": "faucet:f | l:launch_1 | drain:d"}, "faucet": {"f": {"source": "-"}}, "launch": {"launch_1": {"cmd": "cat"}}, "drain": {"d": {"destination": "out"}}}' > c.json
echo hello | timeout -k 1 20 "$PA2" process --config c.json || fail "failed"
grep -q hello out || fail "got $(cat out)"
'''),
    dict(id='output-of-later-end', prop='C28', edits=[(C, '''            rule component_middle_default_input() -> ParserConnection
                =  i:identifier() o:out_port() {
                    ParserConnection::Connection(Connection::MiddleConnection {
                        component_type: i.0,
                        component_name: i.1,
                        input_port: InputPort { breakable: Breakable::Terminate, priority: 0 },
                        output_port: o,''', '''            rule component_middle_default_input() -> ParserConnection
                =  i:identifier() o:out_port() {
                    ParserConnection::Connection(Connection::MiddleConnection {
                        output_port: if o == OutputPort::Exit && i.0 != ComponentType::Launch { OutputPort::Out } else { o },
                        component_type: i.0,
                        component_name: i.1,
                        input_port: InputPort { breakable: Breakable::Terminate, priority: 0 },''')],
         needs='an exit output written behind a component in the middle that is no launch',
         breaks='what is written is changed silently: the output becomes the normal one',
         demo='''
echo '{"connection": {"a": "faucet:f | b:x[X] | drain:d"}, "faucet": {"f": {"source": ""}}, "drain": {"d": {"destination": ""}}}' > c.json
"$PA2" config --config c.json manipulate > out || fail "failed"
grep -q '"exit"' out || fail "got $(cat out)"
'''),
]

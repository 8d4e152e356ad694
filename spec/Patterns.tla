------------------------------ MODULE Patterns ------------------------------
(* Generated by gen_patterns.py. *)
\* 'a'   'b'   'ab'   'a+'   'a*'   'b?'   'a|ab'   'ab|a'   '(a|b)+'   '(a)(b)?'   '[ab]'   '[^a]'   '.'   '.+'   'a.b'   '^'   '$'   '^a'   'b$'   '\\b'   'a{2}'   'a{1,2}'   '(?i)A'   '\\w+'   '\\n'   '(?m)^b'   '(?m)a$'   '(?s).+'   'a+?'   '(ab|a)(b|)'   'x*'   ''   '['   '('   '*'   'a**'   ')'   'a{2,1}'   '[b-a]'   '\\'   'b\\'   '(a)|b'   '\\W'   '(?m)$'   '(a*)b'   '[a-'   'a{2'
RegexSeq ==
  <<
    <<97>>,
    <<98>>,
    <<97, 98>>,
    <<97, 43>>,
    <<97, 42>>,
    <<98, 63>>,
    <<97, 124, 97, 98>>,
    <<97, 98, 124, 97>>,
    <<40, 97, 124, 98, 41, 43>>,
    <<40, 97, 41, 40, 98, 41, 63>>,
    <<91, 97, 98, 93>>,
    <<91, 94, 97, 93>>,
    <<46>>,
    <<46, 43>>,
    <<97, 46, 98>>,
    <<94>>,
    <<36>>,
    <<94, 97>>,
    <<98, 36>>,
    <<92, 98>>,
    <<97, 123, 50, 125>>,
    <<97, 123, 49, 44, 50, 125>>,
    <<40, 63, 105, 41, 65>>,
    <<92, 119, 43>>,
    <<92, 110>>,
    <<40, 63, 109, 41, 94, 98>>,
    <<40, 63, 109, 41, 97, 36>>,
    <<40, 63, 115, 41, 46, 43>>,
    <<97, 43, 63>>,
    <<40, 97, 98, 124, 97, 41, 40, 98, 124, 41>>,
    <<120, 42>>,
    <<>>,
    <<91>>,
    <<40>>,
    <<42>>,
    <<97, 42, 42>>,
    <<41>>,
    <<97, 123, 50, 44, 49, 125>>,
    <<91, 98, 45, 97, 93>>,
    <<92>>,
    <<98, 92>>,
    <<40, 97, 41, 124, 98>>,
    <<92, 87>>,
    <<40, 63, 109, 41, 36>>,
    <<40, 97, 42, 41, 98>>,
    <<91, 97, 45>>,
    <<97, 123, 50>>  \* 'a{2'
  >>
\* ''   'x'   '$1'   '[$0]'   '$$'   '${1}y'   '$1y'   '$'   '\\1'   '$2$1'
TemplateSeq ==
  <<
    <<>>,
    <<120>>,
    <<36, 49>>,
    <<91, 36, 48, 93>>,
    <<36, 36>>,
    <<36, 123, 49, 125, 121>>,
    <<36, 49, 121>>,
    <<36>>,
    <<92, 49>>,
    <<36, 50, 36, 49>>  \* '$2$1'
  >>
\* 'a'   'b'   'ab'   'aa'   'ba'   '\n'   'aba'   ''   '.'   'a+'   'c'
PlainSeq ==
  <<
    <<97>>,
    <<98>>,
    <<97, 98>>,
    <<97, 97>>,
    <<98, 97>>,
    <<10>>,
    <<97, 98, 97>>,
    <<>>,
    <<46>>,
    <<97, 43>>,
    <<99>>  \* 'c'
  >>
=============================================================================

C="wbnf/compile.go"
def c(*p): return [(C,a,b) for a,b in p]
HEAD="	for i := 0; i < len(s); i++ {\n		c := s[i]\n		switch c {\n"
M=[
("x three", c(("s[i+1:i+3], 16, 8","s[i+1:i+4], 16, 16"),("sb.WriteByte(uint8(n))\n				i += 2\n			case 'u'","sb.WriteByte(uint8(n))\n				i += 3\n			case 'u'"))),
("x as rune", c(("				sb.WriteByte(uint8(n))\n				i += 2\n			case 'u'","				sb.WriteRune(rune(n))\n				i += 2\n			case 'u'"))),
("u skip 3", c(("				i += 4\n","				i += 3\n"))),
("u size 8", c(("s[i+1:i+5], 16, 16","s[i+1:i+5], 16, 15"))),
("u as byte", c(("				sb.WriteRune(rune(n))\n				i += 4","				sb.WriteByte(byte(n))\n				i += 4"))),
("U size 16", c(("s[i+1:i+9], 16, 32","s[i+1:i+9], 16, 16"))),
("U 16 bit rune", c(("				sb.WriteRune(rune(n))\n				i += 8","				sb.WriteRune(rune(uint16(n)))\n				i += 8"))),
("U skip", c(("				i += 8\n","				i += 4\n"))),
("octal no 3", c(("case '0', '1', '2', '3', '4'","case '0', '1', '2', '4'"))),
("octal slice", c(("s[i:i+3], 8, 8","s[i+1:i+3], 8, 8"))),
("octal 7 bits", c(("s[i:i+3], 8, 8","s[i:i+3], 8, 7"))),
("octal base", c(("s[i:i+3], 8, 8","s[i:i+3], 16, 16"))),
("octal skip 3", c(("				i += 2\n			case 'a'","				i += 3\n			case 'a'"))),
("v is r", c(("WriteByte('\\v')","WriteByte('\\r')"))),
("f missing", c(("			case 'f':\n				sb.WriteByte('\\f')\n",""))),
("quote backslash", c(("			case quote:\n				sb.WriteByte(quote)","			case quote:\n				sb.WriteByte('\\'')"))),
("quote missing", c(("			case quote:\n				sb.WriteByte(quote)\n",""))),
("backslash twice", c(("				sb.WriteByte('\\\\')\n","				sb.WriteByte('\\\\')\n				i--\n"))),
("end early", c(("i < len(s); i++ {\n		c := s[i]","i < len(s)-1 || i == 0 && len(s) == 1; i++ {\n		c := s[i]"))),
("plain as rune", c(("			sb.WriteByte(c)\n","			sb.WriteRune(rune(c))\n"))),
("trim", c(("quote, s := s[0], s[1:len(s)-1]","quote, s := s[0], strings.TrimSuffix(s[1:], s[:1])"))),
("backquote first only", c(('strings.ReplaceAll(s, "``", "`")','strings.Replace(s, "``", "`", 1)'))),
("backquote kept", c(('strings.ReplaceAll(s, "``", "`")','strings.ReplaceAll(s, "``", "``")'))),
("backquote after decode", c(("	if quote == '`' {","	if quote == '`' && !strings.Contains(s, `\\`) {"))),
("double space", c(("		default:\n			sb.WriteByte(c)","		case ' ':\n			if i == 0 || s[i-1] != ' ' {\n				sb.WriteByte(c)\n			}\n		default:\n			sb.WriteByte(c)"))),
("percent", c(("		default:\n			sb.WriteByte(c)","		case '%':\n			sb.WriteString(\"%%\")\n		default:\n			sb.WriteByte(c)"))),
("high bytes", c(("		default:\n			sb.WriteByte(c)","		default:\n			if c < 0x80 {\n				sb.WriteByte(c)\n			}"))),
("x zero dropped", c(("				sb.WriteByte(uint8(n))\n				i += 2\n			case 'u'","				if n != 0 {\n					sb.WriteByte(uint8(n))\n				}\n				i += 2\n			case 'u'"))),
("= helper", c(("				n, err := strconv.ParseUint(s[i+1:i+5], 16, 16)\n				if err != nil {\n					panic(err)\n				}\n				sb.WriteRune(rune(n))\n","				sb.WriteRune(rune(number(s[i+1:i+5], 16, 16)))\n"),("				n, err := strconv.ParseUint(s[i:i+3], 8, 8)\n				if err != nil {\n					panic(err)\n				}\n				sb.WriteByte(uint8(n))\n","				sb.WriteByte(uint8(number(s[i:i+3], 8, 8)))\n"),("var whitespaceRE","func number(s string, base, bits int) uint64 {\n	n, err := strconv.ParseUint(s, base, bits)\n	if err != nil {\n		panic(err)\n	}\n	return n\n}\n\nvar whitespaceRE"))),
("= bytes", c(("	var sb strings.Builder\n	quote","	var out []byte\n	quote"),("				sb.WriteByte(uint8(n))\n				i += 2\n			case 'u'","				out = append(out, uint8(n))\n				i += 2\n			case 'u'"),("				sb.WriteRune(rune(n))\n				i += 4","				out = append(out, string(rune(n))...)\n				i += 4"),("				sb.WriteRune(rune(n))\n				i += 8","				out = append(out, string(rune(n))...)\n				i += 8"),("				sb.WriteByte(uint8(n))\n				i += 2\n			case 'a'","				out = append(out, uint8(n))\n				i += 2\n			case 'a'"))+[(C,"sb.WriteByte('\\%s')"%e,"out = append(out, '\\%s')"%e) for e in "abfnrtv\\'"]+[(C,"sb.WriteByte(quote)","out = append(out, quote)"),(C,"sb.WriteByte(c)","out = append(out, c)"),(C,"return sb.String()\n}\n\nvar white","return string(out)\n}\n\nvar white")]),
("= concat", c(("	var sb strings.Builder\n	quote","	out := \"\"\n	quote"),("				sb.WriteByte(uint8(n))\n				i += 2\n			case 'u'","				out += string([]byte{uint8(n)})\n				i += 2\n			case 'u'"),("				sb.WriteRune(rune(n))\n				i += 4","				out += string(rune(n))\n				i += 4"),("				sb.WriteRune(rune(n))\n				i += 8","				out += string(rune(n))\n				i += 8"),("				sb.WriteByte(uint8(n))\n				i += 2\n			case 'a'","				out += string([]byte{uint8(n)})\n				i += 2\n			case 'a'"))+[(C,"sb.WriteByte('\\%s')"%e,"out += \"\\%s\""%e) for e in "abfnrtv\\"]+[(C,"sb.WriteByte('\\'')","out += \"'\""),(C,"sb.WriteByte(quote)","out += string(rune(quote))"),(C,"sb.WriteByte(c)","out += s[i : i+1]"),(C,"return sb.String()\n}\n\nvar white","return out\n}\n\nvar white")]),
("= index loop", c((HEAD,"	for i := 0; i < len(s); i++ {\n		if j := strings.IndexByte(s[i:], '\\\\'); j > 0 {\n			sb.WriteString(s[i : i+j])\n			i += j\n		} else if j < 0 {\n			sb.WriteString(s[i:])\n			break\n		}\n		c := s[i]\n		switch c {\n"))),
("= map", c(("			case 'a':\n				sb.WriteByte('\\a')\n			case 'b':\n				sb.WriteByte('\\b')\n","			case 'a', 'b':\n				sb.WriteByte(map[byte]byte{'a': '\\a', 'b': '\\b'}[s[i]])\n"))),
("= array", c(("			case 'a':\n				sb.WriteByte('\\a')\n			case 'b':\n				sb.WriteByte('\\b')\n","			case 'a', 'b':\n				sb.WriteByte(\"\\a\\b\"[s[i]-'a'])\n"))),
("= renamed", [(C,"func parseString(","func unquote("),(C,"parser.S(parseString(name))","parser.S(unquote(name))"),(C,"parser.S(parseString(defTerm))","parser.S(unquote(defTerm))")]),
("= switch quote", c(("	if quote == '`' {\n		return strings.ReplaceAll(s, \"``\", \"`\")\n	}\n","	switch quote {\n	case '`':\n		return strings.ReplaceAll(s, \"``\", \"`\")\n	}\n"))),
]
M+=[
("str trimmed", c(("		return parser.S(parseString(name))","		return parser.S(parseString(strings.TrimSpace(name)))"))),
("str twice", c(("		return parser.S(parseString(name))","		return parser.S(parseString(`\"` + parseString(name) + `\"`))"))),
("default trimmed", c(("parser.S(parseString(defTerm))","parser.S(strings.Trim(defTerm, `\"`))"))),
]

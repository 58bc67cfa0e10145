"""Token-level mutations of C text (used for arbitrary input)."""
import re
TOK = re.compile(r'(?:u8|[LuU])?"(?:\\.|[^"\\\n])*"|[LuU]?\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|\n|[ \t]+|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|.', re.S)
WORDS = """auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned
void volatile while _Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local __attribute__ __func__ __FILE__ __LINE__ __builtin_va_arg __builtin_va_start __builtin_va_list
__builtin_va_copy __builtin_va_end asm __asm__ defined main""".split()
PUNCT = list("()[]{};,.<>?:~!=+-*/%&|^#\\'\"@$`") + ["...", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "<<=", ">>=", "##", "\n", "\\\n", "/*", "*/", "//", "??/", "<:", "%:",
         "#include", "#include \"", "#define", "#define X(", "#undef", "#if", "#ifdef", "#ifndef", "#elif", "#else", "#endif", "#error", "#line", "#pragma", "#pragma pack(", "#pragma once", "\n#if 1\n", "\n#endif\n", "\n#define A A A\n", "\n# 5\n"]
NUMS = ["0", "1", "-1", "0x", "0xffffffffffffffff", "18446744073709551616", "99999999999999999999999999", "1e", "1e999999999", "0x1p", "1.0f", "08", "0b1", "''", "'ab'", "'\\x'", "'\\777'", "\"", "\"\\u\"", "L\"x\"",
        "u8\"\xe9\"", "\"\\xfffff\"", "2147483648", "0x8000000000000000", "1.5.5", "1'2"]
def tokens(t):
    return TOK.findall(t)
def mutate(s, t, n=None):
    """Applies a few random token edits."""
    k = tokens(t)
    for _ in range(n or s.pick([1, 1, 1, 2, 3, 8])):
        if not k:
            break
        i = s.draw(len(k))
        op = s.draw(9)
        if op == 0: del k[i]
        elif op == 1: del k[i:i + s.range(1, 10)]
        elif op == 2: k.insert(i, s.pick(PUNCT))
        elif op == 3: k.insert(i, " " + s.pick(WORDS) + " ")
        elif op == 4: k[i] = s.pick([lambda: s.pick(PUNCT), lambda: s.pick(WORDS), lambda: s.pick(NUMS)])()
        elif op == 5: k.insert(i, " " + s.pick(NUMS) + " ")
        elif op == 6:
            j = s.draw(len(k)); k[i], k[j] = k[j], k[i]
        elif op == 7:
            j = s.draw(len(k)); k[i:i] = k[j:j + s.range(1, 12)]
        else: k = k[:i]
    return "".join(k)
def bytemutate(s, b, n=None):
    b = bytearray(b)
    for _ in range(n or s.range(1, 6)):
        if not b:
            break
        i = s.draw(len(b))
        op = s.draw(4)
        if op == 0: b[i] = s.draw(256)
        elif op == 1: b[i:i] = bytes([s.draw(256)])
        elif op == 2: del b[i:i + s.range(1, 4)]
        else: b[i] ^= 1 << s.draw(8)
    return bytes(b)

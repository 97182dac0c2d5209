"""What the verifiers print for each kind of answer: (exit code, stdout, stderr)."""
OUT = {"proved": (0, b"unsat\n", b""), "sat": (0, b"sat\n(\n(define-fun x () Int 0)\n)\n", b""), "unknown": (0, b"unknown\n(\n)\n", b""),
       "timeout": (-6, b"cvc5 interrupted by timeout.\n", b""), "killed": (-9, b"", b""), "error": (1, b'(error "Parse Error: unsat.smt:1.2: unsat")\n', b""), "empty": (0, b"", b"")}
OUTR = {"proved": (0, b"(unsat)\n", b""), "sat": (0, b"(model\n [x 0])\n", b""), "unknown": (0, b"(unknown)\n", b""), "timeout": (1, b"", b"timeout"),
        "killed": (-9, b"", b""), "error": (1, b"", b"x.rkt:3:1: (unsat): unbound identifier"), "empty": (0, b"", b"")}

ASSUMPTIONS = {
    '*': ['CPython 3.12 and the installed dependencies (bitcoin, ecdsa, scrypt, base58, pycryptodome) are as in the sandbox',
          'hashlib, struct and Python integers are trusted as the basis of the reference models in pbt/ref.py'],
}

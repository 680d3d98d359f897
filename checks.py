"""Which binaries decide which property."""
F = ("mc", "flow")
U = ("mc", "units")
W = ("mcw", "warden")
P = ("mcp", "mcp")
BINS = {
    "C01": [F], "C02": [F, U], "C03": [F], "C04": [F], "C05": [F], "C06": [F], "C07": [F], "C08": [F, U], "C09": [F], "C10": [F],
    "C11": [F, U], "C12": [F, U], "C13": [F, U], "C14": [F, U], "C15": [F], "C16": [F, W], "C17": [F], "C18": [F, U], "C19": [F], "C20": [U, F], "C22": [U], "C21": [F, U], "C23": [F], "C25": [F, U], "C24": [F, P], "C35": [F, U, P],
    "C26": [U, F, W], "C27": [U, F, W],
    "C28": [W], "C29": [W], "C30": [W, F], "C31": [W], "C32": [W], "C33": [W], "C34": [W],
}
LEVEL = {}
ASSUMPTIONS = {
    "*": [
        "transactions are executed by an in-memory runtime that mirrors the Solana account rules (ownership, writability, lamport conservation, atomicity, PDA signing)",
        "native build of the program (overflow wraps as in the on-chain release build); compute-unit limits are not enforced",
    ],
}

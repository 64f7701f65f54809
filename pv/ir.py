"""Independent compilation of textual LLVM IR (no protosym code)."""

from __future__ import annotations

import ctypes

_state = {}


def compile_ir(text, keep):
    """(address, number of parameters, first is a pointer, returns void).

    Raises ValueError if the text is not a valid module with one definition.
    """
    import llvmlite.binding as llvm

    if not _state:
        llvm.initialize()
        llvm.initialize_native_target()
        llvm.initialize_native_asmprinter()
        _state["ok"] = True
    try:
        mod = llvm.parse_assembly(text)
        mod.verify()
    except RuntimeError as e:
        raise ValueError(f"invalid IR: {e}") from None
    defs = [f for f in mod.functions if not f.is_declaration]
    if len(defs) != 1:
        raise ValueError(f"{len(defs)} functions are defined")
    fn = defs[0]
    params = [str(a.type) for a in fn.arguments]
    target = llvm.Target.from_default_triple().create_target_machine(opt=0)
    eng = llvm.create_mcjit_compiler(mod, target)
    eng.finalize_object()
    keep.append(eng)
    return eng.get_function_address(fn.name), params


def scalar_function(text, nargs, keep):
    addr, params = compile_ir(text, keep)
    if params != ["double"] * nargs:
        raise ValueError(f"the function has parameters {params}, expected {nargs} doubles")
    return ctypes.CFUNCTYPE(ctypes.c_double, *[ctypes.c_double] * nargs)(addr)


def array_function(text, nargs, size, keep):
    """Function of nargs floats that returns the list of size doubles written.

    The buffer starts as zeros (entries that are zero need not be written) and
    is surrounded by guard values that must stay as they are.
    """
    addr, params = compile_ir(text, keep)
    if len(params) != nargs + 1 or params[1:] != ["double"] * nargs:
        raise ValueError(f"the function has parameters {params}, expected a pointer and "
                         f"{nargs} doubles")
    ptr = ctypes.POINTER(ctypes.c_double)
    fn = ctypes.CFUNCTYPE(None, ptr, *[ctypes.c_double] * nargs)(addr)
    guard = 64

    def call(*args):
        buf = (ctypes.c_double * (size + 2 * guard))(
            *[1.25] * guard, *[0.0] * size, *[1.25] * guard)
        at = ctypes.cast(ctypes.addressof(buf) + 8 * guard, ptr)
        fn(at, *args)
        if list(buf[:guard]) + list(buf[guard + size:]) != [1.25] * (2 * guard):
            raise ValueError("the function writes outside its array")
        return list(buf[guard:guard + size])

    return call

"""Trusted contract for pydantic's model construction, applied when a symbolic value reaches it.

pydantic-core is compiled code outside the verifier.  Its contract as used by this library: before-mode model validators run on
the input mapping; then every declared field takes the given value if the value already is of the declared type (numbers widen to
float, a list or tuple is copied elementwise), its default if it is absent, and anything else is a ValidationError (or Unsupported
here, when it would be a coercion that this contract does not describe).  Values without symbolic parts go through pydantic itself.
"""

import datetime as _dt
import types
import typing

from vf import core
from vf.core import Unsupported
from vf.sym import Guarded, SBool, SInt, SOpaque, SOpt, SReal, SStr, SText, Sym, VList, deep_sym, wrap_bool

_ADAPTERS = {}


def adapter(annotation):
    from pydantic import ConfigDict, TypeAdapter

    a = _ADAPTERS.get(annotation)
    if a is None:
        try:
            a = TypeAdapter(annotation, config=ConfigDict(arbitrary_types_allowed=True))
        except Exception:
            a = TypeAdapter(annotation)
        _ADAPTERS[annotation] = a
    return a


def options(annotation):
    if isinstance(annotation, types.UnionType) or typing.get_origin(annotation) is typing.Union:
        return typing.get_args(annotation)
    return (annotation,)


class Mismatch(Exception):
    pass


def convert(x, annotation):
    """The validated form of x, or Mismatch."""
    from vf.rt import SDateTimeVal, STime

    if isinstance(x, SOpt):
        if annotation is typing.Any:
            return x
        if type(None) in options(annotation):
            try:
                inner = convert(x.val, annotation)
            except Mismatch:
                pass
            else:
                return None if inner is None else SOpt(x.none, inner)
        x = x.force()
    if annotation is typing.Any:
        return x
    opts = options(annotation)
    if x is None:
        if type(None) in opts:
            return None
        raise Mismatch
    if not isinstance(x, Sym) and not deep_sym(x):
        from pydantic import ValidationError

        try:
            return adapter(annotation).validate_python(x)
        except ValidationError:
            raise Mismatch from None
    for a in opts:
        o = typing.get_origin(a) or a
        if o is float and isinstance(x, (SInt, SReal)) or o is int and isinstance(x, SInt) or o is bool and isinstance(x, SBool):
            return x
        if o is str and isinstance(x, (SStr, SText, SOpaque)) and not isinstance(x, (SReal, SInt)):
            return x
        if o is _dt.datetime and isinstance(x, SDateTimeVal) or o is _dt.time and isinstance(x, STime):
            return x
        if o is list and isinstance(x, (list, tuple)):
            e = (typing.get_args(a) or (typing.Any,))[0]
            if isinstance(x, VList) and x.guarded():
                for i in list.__iter__(x):
                    convert(i.v if isinstance(i, Guarded) else i, e)
                return VList(x)
            return VList([convert(i, e) for i in x])
        if o is tuple and isinstance(x, (list, tuple)):
            args = typing.get_args(a)
            if args and args[-1] is not Ellipsis:
                if len(args) != len(x):
                    continue
                return tuple(convert(i, e) for i, e in zip(x, args))
            return tuple(convert(i, args[0] if args else typing.Any) for i in x)
        if isinstance(x, Sym) and isinstance(o, type) and isinstance(x, o) and o not in (int, float, str, bool, bytes):
            return x
    if isinstance(x, SBool) and int in opts:
        from vf.sym import merge_values

        return merge_values(x.z, 1, 0)
    raise Mismatch


def fail(cls, name, x):
    """Raise pydantic's own ValidationError."""
    from pydantic_core import InitErrorDetails, PydanticCustomError, ValidationError

    raise ValidationError.from_exception_data(cls.__name__, [InitErrorDetails(type=PydanticCustomError("value_error", "not of the declared type"),
                                                                             loc=(name,), input=None)])


def before(cls, data):
    for d in cls.__pydantic_decorators__.model_validators.values():
        if d.info.mode == "before":
            data = d.func.__get__(None, cls)(data) if not isinstance(d.func, types.MethodType) else d.func(data)
        elif core.CTX is not None:
            raise Unsupported("model validator in mode " + d.info.mode)
    return data


def fill(self, data):
    cls = type(self)
    data = before(cls, dict(data))
    if cls.__pydantic_decorators__.field_validators or cls.__pydantic_decorators__.root_validators:
        raise Unsupported("field validators")
    fields = cls.model_fields
    given = {}
    alias = {}
    for n, f in fields.items():
        if f.alias or f.validation_alias:
            alias[f.alias or f.validation_alias] = n
    for k, x in data.items():
        n = alias.get(k, k)
        if n not in fields:
            if cls.model_config.get("extra") == "forbid":
                fail(cls, k, x)
            continue
        given[n] = x
    vals = {}
    for n, f in fields.items():
        if n in given:
            try:
                vals[n] = convert(given[n], f.annotation)
            except Mismatch:
                fail(cls, n, given[n])
        elif f.is_required():
            fail(cls, n, None)
        else:
            vals[n] = f.get_default(call_default_factory=True)
    object.__setattr__(self, "__dict__", vals)
    object.__setattr__(self, "__pydantic_fields_set__", set(given))
    object.__setattr__(self, "__pydantic_extra__", None)
    if cls.__pydantic_post_init__:
        self.model_post_init(None)
    else:
        object.__setattr__(self, "__pydantic_private__", None)


def install():
    from pydantic import BaseModel

    real_init = BaseModel.__init__
    real_validate = BaseModel.model_validate.__func__

    def __init__(self, /, **data):
        if core.CTX is not None and deep_sym(data):
            fill(self, data)
        else:
            real_init(self, **data)
            if core.CTX is not None:
                for k, x in self.__dict__.items():
                    if type(x) is list:
                        self.__dict__[k] = VList(x)

    __init__.__pydantic_base_init__ = True

    def model_validate(cls, obj, **kw):
        if core.CTX is not None and isinstance(obj, dict) and deep_sym(obj) and not kw:
            if cls.__init__ is not BaseModel.__init__:
                return cls(**obj)
            self = cls.__new__(cls)
            fill(self, obj)
            return self
        return real_validate(cls, obj, **kw)

    BaseModel.__init__ = __init__
    BaseModel.model_validate = classmethod(model_validate)

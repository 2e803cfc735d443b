from . import messages, transport, session, auth, items, registry, events  # noqa: F401

"""All properties that have a check."""
from . import props_batch, props_lib, props_lsp

ALL = {p.id: p for m in (props_batch, props_lsp, props_lib) for p in m.ALL}

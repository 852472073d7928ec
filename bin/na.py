"""Properties worth stating that this family does not decide here: (the properties.jsonl fields, reason)."""
NA = []

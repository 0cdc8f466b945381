"""Per-property metadata of the evidence."""
LEVEL = {}
EXPECTED_UNKNOWN = {}
ASSUME = {}

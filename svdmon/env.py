"""Locates the code under test and imports it from its current working tree."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("SVDMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import svdsuite  # noqa: E402
import svdsuite.model as M  # noqa: E402
import svdsuite.model.process as MP  # noqa: E402

assert os.path.realpath(svdsuite.__file__).startswith(os.path.realpath(SRC) + os.sep), svdsuite.__file__

Parser = svdsuite.Parser
ParserException = svdsuite.ParserException
ParserWarning = svdsuite.ParserWarning
Process = svdsuite.Process
ProcessException = svdsuite.ProcessException
ProcessWarning = svdsuite.ProcessWarning
Validator = svdsuite.Validator
ValidatorException = svdsuite.ValidatorException
SVDSchemaVersion = svdsuite.SVDSchemaVersion
Serializer = svdsuite.Serializer
PeripheralRegisterMap = svdsuite.PeripheralRegisterMap

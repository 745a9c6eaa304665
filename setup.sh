#!/bin/bash
# Nothing has to be built beforehand: every check builds the extractor and the replay harness itself.
exit 0

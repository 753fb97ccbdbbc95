#!/bin/bash
# Builds every checker once, to show that the framework builds from the committed files.
cd "$(dirname "$0")" || exit 1
for id in C01 C02 C11 C15 C20; do VERIF_BUILD_ONLY=1 bash run.sh $id || exit 1; done

#!/bin/bash
# Offline: compile every harness package once, from the committed files and /repo's tree.
# One invocation per group of run.sh, so that each check finds the crates built with the
# features it asks for.
/verif/tools/build.sh vmchk || exit
/verif/tools/build.sh txchk prover_bin || exit
/verif/tools/build.sh curvechk || exit
/verif/tools/build.sh plonkchk || exit
/verif/tools/build.sh gadgetchk || exit

"""Static analysis of the ade package (reads /repo's source; never imports or runs it)."""

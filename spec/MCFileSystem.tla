---------------------------- MODULE MCFileSystem ----------------------------
EXTENDS FileSystem
MCPaths == {<<"a">>, <<"a", "x">>, <<"a", "y.csv">>, <<"b", "x">>, <<"a", "d", "x">>}
=============================================================================

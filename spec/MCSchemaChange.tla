--------------------------- MODULE MCSchemaChange ----------------------------
EXTENDS SchemaChange
=============================================================================

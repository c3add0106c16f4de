PROPS = [
 dict(id="C01", title="A command-line option sets exactly its own setting, or is refused",
  statement="Parsing a command line sets the setting of each option given to the value given (boolean words in any usual spelling, whole numbers over the setting's whole range, fractions, texts; the documented implied value when an option that allows it is given without one), whatever the order of options, and leaves every other setting of the given configuration as it was, including settings set beforehand and by earlier command lines. A command line with an unknown option, an option given twice with values, a missing value, or a value that is no value of the option's kind is refused and changes nothing; values outside the documented ranges (HLL precision bits 1..16, GPU input memory limit 0.01..0.99) are refused. Help is reported exactly when asked for.",
  over=["inputs", "histories", "configurations"], quant="All command lines over the 100 options, in all orders, on any configuration, repeatedly on one builder.",
  why="There are 100 options and as many settings; a crossed, shadowed or reset setting shows only for a configuration that differs from the default in just that setting.",
  files=["omniscidb/ConfigBuilder/ConfigBuilder.cpp", "omniscidb/Shared/Config.h"],
  mech=[("option table and parsing", "omniscidb/ConfigBuilder/ConfigBuilder.cpp"), ("settings", "omniscidb/Shared/Config.h")],
  note="Settings.tla defines values, refusal and the effect of a command line over the option table of ConfigTable.tla; TLC checks order independence and the one-to-one table (SettingsMC) and validates recorded parses of the real builder, with the whole configuration read back after each (TraceMeta)."),
 dict(id="S01", title="Schema lookups find exactly the tables and columns that exist, by id and name",
  statement="A schema provider answers every lookup of a table or column, by id, by name or by reference, with exactly the table or column added under it and not dropped since, and with nothing otherwise; lists give each database, table and column once, columns in order of their ids, the virtual row id included. A merged provider routes each database to the provider that owns its schema, live, shows nothing of other schemas, lists each database it serves once, and refuses to merge providers that share a schema.",
  over=["histories", "inputs"], quant="All histories of adding and dropping tables in up to three providers, merging them in any order, and looking up.",
  why="Wrong answers need clashing ids and names in several databases, schemas and providers, a drop followed by reuse, or ids at the limits of the schema encoding.",
  files=["omniscidb/SchemaMgr/SchemaMgr.cpp", "omniscidb/SchemaMgr/SimpleSchemaProvider.h", "omniscidb/SchemaMgr/SchemaProvider.h", "omniscidb/SchemaMgr/TableInfo.h", "omniscidb/SchemaMgr/ColumnInfo.h"],
  mech=[("routing by schema id", "omniscidb/SchemaMgr/SchemaMgr.cpp"), ("catalogue", "omniscidb/SchemaMgr/SimpleSchemaProvider.h")],
  note="Catalogue.tla defines the catalogues, lookups and routing; TLC explores all histories of 5 steps over two providers (CatalogueMC) and validates random histories of real providers and merges (TraceMeta)."),
]

From 7bf86251d12aac03db2cc6c7813e7b66a3ed804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 01/59] fix: FieldDB reports failing statements and commits

The errors of CREATE TABLE, of the registration of the simulation ID, of
comments and of all commits were dropped, such that a call returned normally
although nothing was stored.
---
 pf/database.go | 51 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..812d967 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -79,6 +79,20 @@ type FieldDB struct {
 	initialized bool
 }
 
+// mustExec executes the statement and panics on failure
+func mustExec(statement *sql.Stmt, args ...interface{}) {
+	if _, err := statement.Exec(args...); err != nil {
+		panic(err)
+	}
+}
+
+// mustCommit commits the transaction and panics on failure
+func mustCommit(tx *sql.Tx) {
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
+}
+
 // initialize runs a set of sql statements to build the database. Note that subsequent calls
 // to this function has no effect
 func (fdb *FieldDB) initialize() {
@@ -86,13 +100,13 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	statement, err = fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS fields (id INTEGER PRIMARY KEY, name TEXT, " +
@@ -103,14 +117,14 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, " +
@@ -119,7 +133,7 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, " +
@@ -128,7 +142,7 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS timeseries (key TEXT, value REAL, " +
@@ -137,7 +151,7 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	mustExec(statement)
 
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
@@ -149,7 +163,7 @@ func (fdb *FieldDB) initialize() {
 		if err != nil {
 			panic(err)
 		}
-		statement.Exec(fdb.simID)
+		mustExec(statement, fdb.simID)
 	}
 
 	fdb.initialized = true
@@ -184,16 +198,16 @@ func (fdb *FieldDB) populatePositionsTable() {
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 	}
-	tx.Commit()
+	mustCommit(tx)
 }
 
 // insertRealPart inserts the real part of a set of field values into the database
@@ -205,7 +219,10 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
 		panic("FieldDB: The passed array does not match the specified domain size")
 	}
-	tx, _ := fdb.DB.Begin()
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		panic(err)
+	}
 	for i := range values {
 		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")
 
@@ -223,7 +240,7 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	tx.Commit()
+	mustCommit(tx)
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -253,7 +270,7 @@ func (fdb *FieldDB) Comment(comment string) {
 		log.Fatal(err)
 		return
 	}
-	statement.Exec(fdb.simID, comment)
+	mustExec(statement, fdb.simID, comment)
 }
 
 // SetAttr adds a set of key-value pairs associated with the current simID
@@ -282,7 +299,7 @@ func (fdb *FieldDB) SetAttr(attr map[string]float64) {
 			return
 		}
 	}
-	tx.Commit()
+	mustCommit(tx)
 }
 
 // SetTextAttr sets text attributes associated with the current simulation
@@ -311,7 +328,7 @@ func (fdb *FieldDB) SetTextAttr(attr map[string]string) {
 			return
 		}
 	}
-	tx.Commit()
+	mustCommit(tx)
 }
 
 // TimeSeries inserts data into the timeseries table
@@ -339,7 +356,7 @@ func (fdb *FieldDB) TimeSeries(data map[string]float64, timestep int) {
 			return
 		}
 	}
-	tx.Commit()
+	mustCommit(tx)
 }
 
 // domainSizeOk returns true if the domain size stored locally matches the one
-- 
2.43.0


From ab335dbc57396b92f875da6b66e51ebf6174a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 02/59] fix: never share a simulation ID between simulations

The ID is drawn from a generator that is seeded by the clock. Two simulations
that start at the same clock reading got the same ID; the uniqueness constraint
rejected the second registration, but the simulation went on and mixed its data
with that of the first one. Draw again until the registration succeeds.
---
 pf/database.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 812d967..f2416d4 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -156,14 +156,24 @@ func (fdb *FieldDB) initialize() {
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
 		generator := rand.New(source)
-		fdb.simID = generator.Int31()
 
-		// Insert into the database
-		statement, err = fdb.DB.Prepare("INSERT INTO simIDs (simID, creationTime) VALUES (?, datetime('now', 'localtime'))")
+		// Insert into the database. IDs that are taken already are skipped
+		statement, err = fdb.DB.Prepare("INSERT OR IGNORE INTO simIDs (simID, creationTime) VALUES (?, datetime('now', 'localtime'))")
 		if err != nil {
 			panic(err)
 		}
-		mustExec(statement, fdb.simID)
+		for fdb.simID == 0 {
+			simID := generator.Int31()
+			result, err := statement.Exec(simID)
+			if err != nil {
+				panic(err)
+			}
+			if num, err := result.RowsAffected(); err != nil {
+				panic(err)
+			} else if num == 1 {
+				fdb.simID = simID
+			}
+		}
 	}
 
 	fdb.initialized = true
-- 
2.43.0


From 4289d07b91fa3ab28479f877ee864ee1ce546cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 03/59] fix: populate the positions table exactly once with the
 node numbers

The row IDs started at 1 while fields.positionId starts at 0, such that a join
gave every node the position of its neighbour. Two simulations that started at
the same time both populated the table. A domain with one node was added again
on every save.
---
 pf/database.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index f2416d4..fd9dcd0 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -189,7 +189,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	for result.Next() {
 		result.Scan(&numRows)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
@@ -204,18 +204,25 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT INTO positions (id, X, Y, Z) SELECT ?, ?, ?, ? " +
+			"WHERE ? > 0 OR NOT EXISTS (SELECT 1 FROM positions)")
 
 		if err != nil {
 			tx.Rollback()
 			panic(err)
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		result, err := statement.Exec(i, pos3[0], pos3[1], pos3[2], i)
 
 		if err != nil {
 			tx.Rollback()
 			panic(err)
 		}
+
+		if num, err := result.RowsAffected(); err == nil && num == 0 {
+			// Another simulation has populated the table in the meantime
+			tx.Rollback()
+			return
+		}
 	}
 	mustCommit(tx)
 }
-- 
2.43.0


From 593f83979721c66c8ba42e1d22113848ffecf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 04/59] fix: refuse to store a 2D domain in a database with a
 3D grid

Only as many dimensions as the new domain has were compared.
---
 pf/database.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index fd9dcd0..1f6c4de 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -384,8 +384,10 @@ func (fdb *FieldDB) domainSizeOk() bool {
 	}
 
 	columns := []string{"X", "Y", "Z"}
+	size := []int{1, 1, 1}
+	copy(size, fdb.DomainSize)
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	for i := range columns {
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -397,7 +399,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		for rows.Next() {
 			rows.Scan(&maxval)
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+		if maxval != size[i]-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 41c10589b4161c195041c5bd956ec2a642f05a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 05/59] fix: store all fields of an epoch in one transaction

A crash between two fields left an epoch that LoadLast returned with a part of
the fields only.
---
 pf/database.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 1f6c4de..904e389 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -233,13 +233,20 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 		panic("FieldDB: Domain size does not match the positions table in the database")
 	}
 
-	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
-		panic("FieldDB: The passed array does not match the specified domain size")
-	}
 	tx, err := fdb.DB.Begin()
 	if err != nil {
 		panic(err)
 	}
+	defer tx.Rollback()
+	fdb.insertRealPartTx(tx, name, timestep, values)
+	mustCommit(tx)
+}
+
+// insertRealPartTx does the same as insertRealPart within an existing transaction
+func (fdb *FieldDB) insertRealPartTx(tx *sql.Tx, name string, timestep int, values []complex128) {
+	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
+		panic("FieldDB: The passed array does not match the specified domain size")
+	}
 	for i := range values {
 		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")
 
@@ -257,7 +264,6 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	mustCommit(tx)
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -271,9 +277,19 @@ func (fdb *FieldDB) SaveFields(s *Solver, epoch int) {
 		fdb.populatePositionsTable()
 	}
 
+	if !fdb.domainSizeOk() {
+		panic("FieldDB: Domain size does not match the positions table in the database")
+	}
+
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		panic(err)
+	}
+	defer tx.Rollback()
 	for _, f := range s.Model.Fields {
-		fdb.insertRealPart(f.Name, epoch, f.Data)
+		fdb.insertRealPartTx(tx, f.Name, epoch, f.Data)
 	}
+	mustCommit(tx)
 }
 
 // Comment adds a comment associated with the current simulation ID
-- 
2.43.0


From 2102ea6d40a093302a5ca9ac335c51530f1088de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 06/59] fix: FieldDB never returns fields that were read in
 part

Errors of queries were dropped, such that the remaining nodes were left at zero.
The queries of Load saw different states of the database when another simulation
stored data at the same time.
---
 pf/database.go | 52 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 904e389..658f234 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -93,6 +93,20 @@ func mustCommit(tx *sql.Tx) {
 	}
 }
 
+// mustScan reads the current row and panics on failure
+func mustScan(rows *sql.Rows, dest ...interface{}) {
+	if err := rows.Scan(dest...); err != nil {
+		panic(err)
+	}
+}
+
+// mustBeComplete panics if the iteration over the rows ended because of an error
+func mustBeComplete(rows *sql.Rows) {
+	if err := rows.Err(); err != nil {
+		panic(err)
+	}
+}
+
 // initialize runs a set of sql statements to build the database. Note that subsequent calls
 // to this function has no effect
 func (fdb *FieldDB) initialize() {
@@ -187,8 +201,9 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	}
 	var numRows int
 	for result.Next() {
-		result.Scan(&numRows)
+		mustScan(result, &numRows)
 	}
+	mustBeComplete(result)
 	return numRows > 0
 }
 
@@ -404,7 +419,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 	copy(size, fdb.DomainSize)
 
 	for i := range columns {
-		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
+		sqlStr := fmt.Sprintf("SELECT IFNULL(MAX(%s), -1) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
 			log.Fatal(err)
@@ -413,8 +428,9 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 		var maxval int
 		for rows.Next() {
-			rows.Scan(&maxval)
+			mustScan(rows, &maxval)
 		}
+		mustBeComplete(rows)
 		if maxval != size[i]-1 {
 			return false
 		}
@@ -426,39 +442,52 @@ func (fdb *FieldDB) domainSizeOk() bool {
 // simID is the ID of the simulation that the field should be loaded from, and
 // timestep is the timestep from which the fields should be initialized.
 func (fdb *FieldDB) Load(simID int, timestep int) []Field {
+	// All queries are made within one transaction, such that they see the same data
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		panic(err)
+	}
+	defer tx.Rollback()
+
 	fieldNames := []string{}
-	rows, err := fdb.DB.Query("SELECT DISTINCT name FROM fields WHERE simID=? "+
+	rows, err := tx.Query("SELECT DISTINCT name FROM fields WHERE simID=? "+
 		"AND timestep=? ORDER BY name", simID, timestep)
 	if err != nil {
 		panic(err)
 	}
 	var name string
 	for rows.Next() {
-		rows.Scan(&name)
+		mustScan(rows, &name)
 		fieldNames = append(fieldNames, name)
 	}
+	mustBeComplete(rows)
 
 	var numNodes int
-	rows, err = fdb.DB.Query("SELECT COUNT(*) FROM positions")
+	rows, err = tx.Query("SELECT COUNT(*) FROM positions")
 	if err != nil {
 		panic(err)
 	}
 	for rows.Next() {
-		rows.Scan(&numNodes)
+		mustScan(rows, &numNodes)
 	}
+	mustBeComplete(rows)
 	fields := make(map[string]Field)
 	for _, key := range fieldNames {
 		fields[key] = NewField(key, numNodes, nil)
 	}
 
-	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
+	rows, err = tx.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
+	if err != nil {
+		panic(err)
+	}
 	var value float64
 	var positionID int
 	for rows.Next() {
-		rows.Scan(&name, &value, &positionID)
+		mustScan(rows, &name, &value, &positionID)
 		fields[name].Data[positionID] = complex(value, 0.0)
 	}
+	mustBeComplete(rows)
 
 	fieldArray := make([]Field, len(fieldNames))
 	for i, fieldName := range fieldNames {
@@ -470,13 +499,14 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 // LoadLast loads the fields from the latest timestep available for the
 // passed simulation ID
 func (fdb *FieldDB) LoadLast(simID int) []Field {
-	rows, err := fdb.DB.Query("SELECT MAX(timestep) FROM fields WHERE simID=?", simID)
+	rows, err := fdb.DB.Query("SELECT IFNULL(MAX(timestep), 0) FROM fields WHERE simID=?", simID)
 	if err != nil {
 		panic(err)
 	}
 	var maxTs int
 	for rows.Next() {
-		rows.Scan(&maxTs)
+		mustScan(rows, &maxTs)
 	}
+	mustBeComplete(rows)
 	return fdb.Load(simID, maxTs)
 }
-- 
2.43.0


From 125923310ae85cdfb4bc8462418c304c7eb30441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:35 +0000
Subject: [PATCH 07/59] fix: db commands never show results that were read in
 part

Errors from Query, Scan and the row iteration were ignored, thus a failing
read gave incomplete or wrong output without any notice. Text attributes
were scanned into the variable of the numeric attributes and never shown.
---
 cmd/attr.go    | 20 +++++++++++++++-----
 cmd/comment.go |  6 ++++--
 cmd/export.go  | 39 ++++++++++++++++++++++++++++-----------
 cmd/info.go    | 30 +++++++++++++++++++-----------
 cmd/list.go    | 23 ++++++++++++++++++-----
 cmd/time.go    |  7 ++++++-
 cmd/util.go    | 23 +++++++++++++++++++----
 7 files changed, 109 insertions(+), 39 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..69c885f 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -94,9 +94,10 @@ func listUniqueAttributes(db *sql.DB) {
 	fmt.Printf("Unique attribute names:\n")
 	var key string
 	for rows.Next() {
-		rows.Scan(&key)
+		mustScan(rows, &key)
 		fmt.Printf("%s\n", key)
 	}
+	mustBeDone(rows)
 }
 
 // listAttributes lists the attributes. If simulationID is greater than 0, only attributes
@@ -129,13 +130,14 @@ func listAttributes(db *sql.DB, simulationID int) {
 	var value float64
 	var simID int
 	for rows.Next() {
-		rows.Scan(&key, &value, &simID)
+		mustScan(rows, &key, &value, &simID)
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
 		kvp[simID][key] = fmt.Sprintf("%f", value)
 		header[key] = true
 	}
+	mustBeDone(rows)
 
 	// Go through the text attributes
 	var txtVal string
@@ -152,13 +154,14 @@ func listAttributes(db *sql.DB, simulationID int) {
 	}
 
 	for rows.Next() {
-		rows.Scan(&key, &txtVal, &simID)
+		mustScan(rows, &key, &txtVal, &simID)
 		header[key] = true
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
 		kvp[simID][key] = txtVal
 	}
+	mustBeDone(rows)
 
 	headerKeys := set2slice(header)
 	for tableIdx := 0; tableIdx <= len(headerKeys)/MaxCols; tableIdx++ {
@@ -209,9 +212,10 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var value float64
 	var simID int
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		mustScan(rows, &value, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
 	}
+	mustBeDone(rows)
 
 	if simulationID > 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
@@ -219,11 +223,17 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
 	}
 
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
+
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		mustScan(rows, &txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
+	mustBeDone(rows)
 }
 
 func set2slice(set map[string]bool) []string {
diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..f308449 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -72,8 +72,9 @@ is used.
 			}
 			var comment string
 			for rows.Next() {
-				rows.Scan(&comment)
+				mustScan(rows, &comment)
 			}
+			mustBeDone(rows)
 			fmt.Printf("Sim id %d:\n%s\n", simid, comment)
 		}
 
@@ -96,7 +97,7 @@ func printAllComments(db *sql.DB) {
 	var simID int
 	var comment string
 	for rows.Next() {
-		rows.Scan(&simID, &comment)
+		mustScan(rows, &simID, &comment)
 
 		numLines := len(comment)/CommentWidth + 1
 		var currentComment string
@@ -117,6 +118,7 @@ func printAllComments(db *sql.DB) {
 			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
 		}
 	}
+	mustBeDone(rows)
 	fmt.Printf("%s\n", singleLine(width))
 }
 
diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..9b12b6b 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -130,12 +130,13 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	keys := []string{}
 	var key string
 	for rows.Next() {
-		rows.Scan(&key)
+		mustScan(rows, &key)
 		keys = append(keys, key)
 	}
+	mustBeDone(rows)
 
 	// Extract maximum number timestep
-	rows, err = db.Query("SELECT MAX(timestep) FROM timeseries WHERE simId=?", simid)
+	rows, err = db.Query("SELECT IFNULL(MAX(timestep), 0) FROM timeseries WHERE simId=?", simid)
 	if err != nil {
 		fmt.Printf("%s\n", err)
 		return
@@ -143,8 +144,9 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 
 	var maxStep int
 	for rows.Next() {
-		rows.Scan(&maxStep)
+		mustScan(rows, &maxStep)
 	}
+	mustBeDone(rows)
 
 	dataArray := make([]map[string]float64, maxStep+1)
 	for i := range dataArray {
@@ -160,9 +162,10 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	var value float64
 
 	for rows.Next() {
-		rows.Scan(&key, &value, &timestep)
+		mustScan(rows, &key, &value, &timestep)
 		dataArray[timestep][key] = value
 	}
+	mustBeDone(rows)
 
 	out, err := os.Create(outfile)
 	if err != nil {
@@ -190,10 +193,15 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		log.Printf("Negative timestep provided. Exporting data for the largest timestep instead (=%d)\n", ts)
 	}
 	rows, err := db.Query("SELECT COUNT (*) FROM fields WHERE simId=? AND timestep=?", simid, ts)
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	var numRows int
 	for rows.Next() {
-		rows.Scan(&numRows)
+		mustScan(rows, &numRows)
 	}
+	mustBeDone(rows)
 	if numRows == 0 {
 		fmt.Printf("No entries in DB for id: %d and timestep %d\n", simid, ts)
 		return
@@ -207,17 +215,23 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	keys := []string{}
 	var key string
 	for rows.Next() {
-		rows.Scan(&key)
+		mustScan(rows, &key)
 		keys = append(keys, key)
 	}
+	mustBeDone(rows)
 
 	positions := [][]int{}
 	rows, err = db.Query("SELECT X,Y,Z FROM positions ORDER BY id")
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	var x, y, z int
 	for rows.Next() {
-		rows.Scan(&x, &y, &z)
+		mustScan(rows, &x, &y, &z)
 		positions = append(positions, []int{x, y, z})
 	}
+	mustBeDone(rows)
 
 	data := make([]map[string]float64, len(positions))
 	for i := range data {
@@ -233,9 +247,10 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	var value float64
 	var positionID int
 	for rows.Next() {
-		rows.Scan(&name, &value, &positionID)
+		mustScan(rows, &name, &value, &positionID)
 		data[positionID][name] = value
 	}
+	mustBeDone(rows)
 
 	out, err := os.Create(outfile)
 	if err != nil {
@@ -267,15 +282,16 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 
 // largestTimestep extracts the largest timestep from the fields table
 func largestTimestep(db *sql.DB, simid int) int {
-	rows, err := db.Query("SELECT MAX(timestep) FROM fields WHERE simId=?", simid)
+	rows, err := db.Query("SELECT IFNULL(MAX(timestep), 0) FROM fields WHERE simId=?", simid)
 	if err != nil {
 		log.Fatalf("Could not determine maximum timestep: %s\n", err)
 		return 0
 	}
 	var maxts int
 	for rows.Next() {
-		rows.Scan(&maxts)
+		mustScan(rows, &maxts)
 	}
+	mustBeDone(rows)
 	return maxts
 }
 
@@ -289,8 +305,9 @@ func allTimeSteps(db *sql.DB, simid int) []int {
 
 	var step int
 	for rows.Next() {
-		rows.Scan(&step)
+		mustScan(rows, &step)
 		timesteps = append(timesteps, step)
 	}
+	mustBeDone(rows)
 	return timesteps
 }
diff --git a/cmd/info.go b/cmd/info.go
index d92fddc..79ae8ca 100644
--- a/cmd/info.go
+++ b/cmd/info.go
@@ -60,8 +60,9 @@ the name of all timeseries that are tracked.
 		}
 		var numCalc int
 		for rows.Next() {
-			rows.Scan(&numCalc)
+			mustScan(rows, &numCalc)
 		}
+		mustBeDone(rows)
 
 		// Extract the names of the fields
 		rows, err = db.Query("SELECT DISTINCT name FROM fields")
@@ -72,38 +73,42 @@ the name of all timeseries that are tracked.
 		fields := []string{}
 		var fieldName string
 		for rows.Next() {
-			rows.Scan(&fieldName)
+			mustScan(rows, &fieldName)
 			fields = append(fields, fieldName)
 		}
+		mustBeDone(rows)
 
 		// Extract the dimension of the data
-		rows, err = db.Query("SELECT MAX(X) FROM positions")
+		rows, err = db.Query("SELECT IFNULL(MAX(X), 0) FROM positions")
 		var nx, ny, nz int
 		if err != nil {
 			log.Fatalf("%s\n", err)
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&nx)
+			mustScan(rows, &nx)
 		}
+		mustBeDone(rows)
 
-		rows, err = db.Query("SELECT MAX(Y) FROM positions")
+		rows, err = db.Query("SELECT IFNULL(MAX(Y), 0) FROM positions")
 		if err != nil {
 			log.Fatalf("%s\n", err)
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&ny)
+			mustScan(rows, &ny)
 		}
+		mustBeDone(rows)
 
-		rows, err = db.Query("SELECT MAX(Z) FROM positions")
+		rows, err = db.Query("SELECT IFNULL(MAX(Z), 0) FROM positions")
 		if err != nil {
 			log.Fatalf("%s\n", err)
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&nz)
+			mustScan(rows, &nz)
 		}
+		mustBeDone(rows)
 
 		// Extract attributes
 		rows, err = db.Query("SELECT DISTINCT key FROM simAttributes")
@@ -114,9 +119,10 @@ the name of all timeseries that are tracked.
 		attrs := []string{}
 		var attr string
 		for rows.Next() {
-			rows.Scan(&attr)
+			mustScan(rows, &attr)
 			attrs = append(attrs, attr)
 		}
+		mustBeDone(rows)
 
 		rows, err = db.Query("SELECT DISTINCT key FROM simTextAttributes")
 		if err != nil {
@@ -124,9 +130,10 @@ the name of all timeseries that are tracked.
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&attr)
+			mustScan(rows, &attr)
 			attrs = append(attrs, attr)
 		}
+		mustBeDone(rows)
 
 		// Extract the timeseries
 		rows, err = db.Query("SELECT DISTINCT key FROM timeseries")
@@ -138,9 +145,10 @@ the name of all timeseries that are tracked.
 		var tname string
 		tnames := []string{}
 		for rows.Next() {
-			rows.Scan(&tname)
+			mustScan(rows, &tname)
 			tnames = append(tnames, tname)
 		}
+		mustBeDone(rows)
 
 		width := DescWidth + ValueWidth + 7
 		// Print the summary
diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..aa83097 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -45,6 +45,10 @@ such that the newest entries appear first.
 		}
 
 		sqlDB, err := sql.Open("sqlite3", args[0])
+		if err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 
 		switch content {
 		case "simId", "simid", "id":
@@ -71,8 +75,9 @@ func showSimulationIds(db *sql.DB, max int) {
 	}
 	var numRows int
 	for rows.Next() {
-		rows.Scan(&numRows)
+		mustScan(rows, &numRows)
 	}
+	mustBeDone(rows)
 	if max < numRows {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
@@ -80,6 +85,10 @@ func showSimulationIds(db *sql.DB, max int) {
 	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 
 	fmt.Printf("-----------------------------------------------------------\n")
 	fmt.Printf("| Sim Id                  | Creation time                 |\n")
@@ -87,9 +96,10 @@ func showSimulationIds(db *sql.DB, max int) {
 	var simID int
 	var timestamp string
 	for rows.Next() {
-		rows.Scan(&simID, &timestamp)
+		mustScan(rows, &simID, &timestamp)
 		fmt.Printf("| %-23d | %-29s |\n", simID, timestamp)
 	}
+	mustBeDone(rows)
 	fmt.Printf("-----------------------------------------------------------\n")
 }
 
@@ -101,8 +111,9 @@ func showComments(db *sql.DB, max int) {
 	}
 	var numRows int
 	for rows.Next() {
-		rows.Scan(&numRows)
+		mustScan(rows, &numRows)
 	}
+	mustBeDone(rows)
 	if max < numRows {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
@@ -119,9 +130,10 @@ func showComments(db *sql.DB, max int) {
 	var creationTime string
 
 	for rows.Next() {
-		rows.Scan(&simID, &creationTime)
+		mustScan(rows, &simID, &creationTime)
 		simIds = append(simIds, simID)
 	}
+	mustBeDone(rows)
 
 	sql = "SELECT value from comments WHERE simID=?"
 	var comment string
@@ -132,8 +144,9 @@ func showComments(db *sql.DB, max int) {
 			return
 		}
 		for rows.Next() {
-			rows.Scan(&comment)
+			mustScan(rows, &comment)
 		}
+		mustBeDone(rows)
 
 		fmt.Printf("Sim Id %d:\n%s\n\n", v, comment)
 	}
diff --git a/cmd/time.go b/cmd/time.go
index eb8e67a..886d8b3 100644
--- a/cmd/time.go
+++ b/cmd/time.go
@@ -39,10 +39,15 @@ prints the creation time of the simulation with ID 456.
 		}
 
 		rows, err := db.Query("SELECT creationTime FROM simIds WHERE simId=?", simid)
+		if err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		var creationTime string
 		for rows.Next() {
-			rows.Scan(&creationTime)
+			mustScan(rows, &creationTime)
 		}
+		mustBeDone(rows)
 		fmt.Printf("Simulation %d was created at %s\n", simid, creationTime)
 	},
 }
diff --git a/cmd/util.go b/cmd/util.go
index cf503fb..91a74bd 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -2,7 +2,7 @@ package cmd
 
 import (
 	"database/sql"
-	"fmt"
+	"log"
 )
 
 // SimIDWidth is the width of the simulation ID field
@@ -26,18 +26,33 @@ func singleLine(length int) string {
 	return singleLine
 }
 
+// mustScan reads the current row. A row that cannot be read ends the program,
+// such that incomplete or wrong values are never shown.
+func mustScan(rows *sql.Rows, dest ...interface{}) {
+	if err := rows.Scan(dest...); err != nil {
+		log.Fatalf("%s\n", err)
+	}
+}
+
+// mustBeDone ends the program if the iteration over rows stopped prior to the last row
+func mustBeDone(rows *sql.Rows) {
+	if err := rows.Err(); err != nil {
+		log.Fatalf("%s\n", err)
+	}
+}
+
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
 	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
 	if err != nil {
-		fmt.Printf("%s\n", err)
-		return 0
+		log.Fatalf("%s\n", err)
 	}
 
 	var simID int
 	for rows.Next() {
-		rows.Scan(&simID)
+		mustScan(rows, &simID)
 	}
+	mustBeDone(rows)
 	return simID
 }
 
-- 
2.43.0


From 3589c4d32126c5c6732080adb5be919c11309a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:35 +0000
Subject: [PATCH 08/59] fix: db comment announces an update only if it took
 place

---
 cmd/comment.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index f308449..08ae53d 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -62,7 +62,13 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			statement.Exec(newMsg, simid)
+			res, err := statement.Exec(newMsg, simid)
+			if err != nil {
+				log.Fatalf("%s\n", err)
+			}
+			if n, err := res.RowsAffected(); err != nil || n == 0 {
+				log.Fatalf("No comment of id %d to update\n", simid)
+			}
 			fmt.Printf("Comment of id %d was successfully updated\n", simid)
 		} else {
 			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)
-- 
2.43.0


From 002c35c351ca050bf506e98732b80e505ca9f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:35 +0000
Subject: [PATCH 09/59] fix: db commands pick the simulation registered last
 and its own comment

Creation times have a resolution of one second, so ties are resolved by the
order of registration. A simulation without a comment was listed with the
comment of the simulation above it.
---
 cmd/list.go | 6 +++---
 cmd/util.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index aa83097..da9e54c 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -82,7 +82,7 @@ func showSimulationIds(db *sql.DB, max int) {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
 
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 	if err != nil {
@@ -119,7 +119,7 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	simIds := []int{}
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 	if err != nil {
@@ -136,8 +136,8 @@ func showComments(db *sql.DB, max int) {
 	mustBeDone(rows)
 
 	sql = "SELECT value from comments WHERE simID=?"
-	var comment string
 	for _, v := range simIds {
+		var comment string
 		rows, err = db.Query(sql, v)
 		if err != nil {
 			fmt.Printf("%s\n", err)
diff --git a/cmd/util.go b/cmd/util.go
index 91a74bd..14f2bee 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -43,7 +43,7 @@ func mustBeDone(rows *sql.Rows) {
 
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
-	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
+	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
 	if err != nil {
 		log.Fatalf("%s\n", err)
 	}
-- 
2.43.0


From c6955f539bd54f10d099be368c7c01d276d99e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 10/59] fix: db export announces a file only if it holds one
 consistent state

The queries of an export are made in one transaction, as a concurrent
simulation otherwise leads to a mix of states (or a panic). Errors when the
csv file is flushed or closed are reported.
---
 cmd/export.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 9b12b6b..86a9b32 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -85,18 +85,25 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 			return
 		}
 
+		// All queries see the same content, also when a simulation is storing data
+		tx, err := db.Begin()
+		if err != nil {
+			log.Fatalf("%s\n", err)
+		}
+		defer tx.Rollback()
+
 		switch ftype {
 		case "timeseries", "ts":
-			exportTimeseries(db, outfile, simid)
+			exportTimeseries(tx, outfile, simid)
 		case "field", "fieldData", "fd":
 			if all {
-				steps := allTimeSteps(db, simid)
+				steps := allTimeSteps(tx, simid)
 				for _, step := range steps {
 					fname := fmt.Sprintf("%s%d.csv", outfile, step)
-					exportFieldData(db, step, simid, fname)
+					exportFieldData(tx, step, simid, fname)
 				}
 			} else {
-				exportFieldData(db, timestep, simid, outfile)
+				exportFieldData(tx, timestep, simid, outfile)
 			}
 		default:
 			fmt.Printf("Unknown export type %s\n", ftype)
@@ -120,7 +127,14 @@ func appendFileExtension(fname string) string {
 	return fname
 }
 
-func exportTimeseries(db *sql.DB, outfile string, simid int) {
+// mustComplete ends the program if the export failed
+func mustComplete(err error) {
+	if err != nil {
+		log.Fatalf("Export failed: %s\n", err)
+	}
+}
+
+func exportTimeseries(db *sql.Tx, outfile string, simid int) {
 	// Extract keys
 	rows, err := db.Query("SELECT DISTINCT key FROM timeseries WHERE simId=?", simid)
 	if err != nil {
@@ -172,9 +186,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		fmt.Printf("%s\n", err)
 		return
 	}
-	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(keys)
 	record := make([]string, len(keys))
@@ -184,10 +196,13 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	mustComplete(writer.Error())
+	mustComplete(out.Close())
 	fmt.Printf("Timeseries written to %s\n", outfile)
 }
 
-func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
+func exportFieldData(db *sql.Tx, ts int, simid int, outfile string) {
 	if ts < 0 {
 		ts = largestTimestep(db, simid)
 		log.Printf("Negative timestep provided. Exporting data for the largest timestep instead (=%d)\n", ts)
@@ -257,9 +272,7 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		fmt.Printf("%s\n", err)
 		return
 	}
-	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	header := make([]string, 3+len(keys))
 	header[0] = "X"
@@ -277,11 +290,14 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	mustComplete(writer.Error())
+	mustComplete(out.Close())
 	fmt.Printf("Field data written to %s\n", outfile)
 }
 
 // largestTimestep extracts the largest timestep from the fields table
-func largestTimestep(db *sql.DB, simid int) int {
+func largestTimestep(db *sql.Tx, simid int) int {
 	rows, err := db.Query("SELECT IFNULL(MAX(timestep), 0) FROM fields WHERE simId=?", simid)
 	if err != nil {
 		log.Fatalf("Could not determine maximum timestep: %s\n", err)
@@ -295,7 +311,7 @@ func largestTimestep(db *sql.DB, simid int) int {
 	return maxts
 }
 
-func allTimeSteps(db *sql.DB, simid int) []int {
+func allTimeSteps(db *sql.Tx, simid int) []int {
 	rows, err := db.Query("SELECT DISTINCT timestep FROM fields WHERE simId=?", simid)
 	timesteps := []int{}
 	if err != nil {
-- 
2.43.0


From 846bfb3ebb77f8f01247538df56a8168a8cee889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:38 +0000
Subject: [PATCH 11/59] fix: db comment shows the whole text of long comments

Comments without white spaces, or of exactly the width of the table, led to a
panic. The last part was left out when lines were broken early.
---
 cmd/comment.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 08ae53d..fd231a7 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -105,21 +105,28 @@ func printAllComments(db *sql.DB) {
 	for rows.Next() {
 		mustScan(rows, &simID, &comment)
 
-		numLines := len(comment)/CommentWidth + 1
 		var currentComment string
 		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
+		for lineNum := 0; lineNum == 0 || start < len(comment); lineNum++ {
 			idString := " "
 			if lineNum == 0 {
 				idString = fmt.Sprintf("%d", simID)
 			}
 
-			if start+CommentWidth > len(comment) {
+			if start+CommentWidth >= len(comment) {
 				currentComment = comment[start:]
+				start = len(comment)
 			} else {
 				end := closestWhiteSpace(comment, start+CommentWidth)
+				if end <= start {
+					// No white space in the remaining part of the line
+					end = start + CommentWidth
+				}
 				currentComment = comment[start:end]
-				start = end + 1
+				start = end
+				if comment[start] == ' ' {
+					start++
+				}
 			}
 			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
 		}
-- 
2.43.0


From 0136d28ccfc4ae2de36353b5f516497e83c18614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:26 +0000
Subject: [PATCH 12/59] fix: RK4 advances the time in every step

The solver calls Step and not Propagate, thus the time was always zero for
time dependent terms and sources.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..bd8f571 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 47b0098195b2bd0c34a5f4e779a54785c24fad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:26 +0000
Subject: [PATCH 13/59] fix: each derived field of a term is its own brick

All names referred to the last derived field passed.
---
 pf/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pf/model.go b/pf/model.go
index 140d220..4145126 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -336,6 +336,7 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
 		for _, f := range dFields {
+			f := f // Bricks must not share the loop variable
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From 2fdbceec091056a3b7519f0e4d94f1a224d1ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:26 +0000
Subject: [PATCH 14/59] fix: saving to a file fails loudly if the file is not
 complete

---
 pf/fileIO.go   | 23 +++++++++++++++--------
 pf/sdd.go      |  3 ++-
 pf/xdmf.go     |  4 ++--
 pfutil/grid.go | 14 ++++++++++----
 4 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index df1c779..d3680c9 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -12,6 +12,13 @@ import (
 	"github.com/davidkleiven/gopf/pfutil"
 )
 
+// mustSave panics on failure. A file that is incomplete must not be taken for a saved one.
+func mustSave(err error) {
+	if err != nil {
+		panic(err)
+	}
+}
+
 // Uint8IO is a struct used to store fields as uint8
 type Uint8IO struct {
 	Prefix string
@@ -36,8 +43,8 @@ func (u *Uint8IO) SaveFields(s *Solver, epoch int) {
 		if err != nil {
 			panic(err)
 		}
-		binary.Write(out, binary.BigEndian, uint8Rep)
-		out.Close()
+		mustSave(binary.Write(out, binary.BigEndian, uint8Rep))
+		mustSave(out.Close())
 	}
 }
 
@@ -87,11 +94,10 @@ func LoadFloat64(fname string) []float64 {
 func SaveFloat64(fname string, data []float64) {
 	out, err := os.Create(fname)
 	if err != nil {
-		fmt.Printf("%s\n", err)
-		return
+		panic(err)
 	}
-	defer out.Close()
-	binary.Write(out, binary.BigEndian, data)
+	mustSave(binary.Write(out, binary.BigEndian, data))
+	mustSave(out.Close())
 }
 
 // CsvIO writes data to text csv text files
@@ -187,10 +193,8 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 		log.Fatalf("Could not open file: %s\n", err)
 		return
 	}
-	defer out.Close()
 
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(header)
 	record := make([]string, len(header))
@@ -206,4 +210,7 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	mustSave(writer.Error())
+	mustSave(out.Close())
 }
diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..77cce2b 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -66,7 +66,6 @@ func (sddm *SDDMonitor) Log(s *Solver, epoch int) {
 	size := stat.Size()
 	header := []string{"MaxForce", "MaxTorque", "ForcePowerSpect", "FieldNorm", "FieldNormChange"}
 	writer := csv.NewWriter(sddm.LogFile)
-	defer writer.Flush()
 
 	if size == 0 {
 		writer.Write(header)
@@ -80,6 +79,8 @@ func (sddm *SDDMonitor) Log(s *Solver, epoch int) {
 		fmt.Sprintf("%f", sddm.FieldNormChange),
 	}
 	writer.Write(record)
+	writer.Flush()
+	mustSave(writer.Error())
 }
 
 // SDD implements Shrinking-Dimer-Dynamics
diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..8aa94e1 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -168,6 +168,6 @@ func WriteXDMF(xdmfFile string, fields []string, prefix string, num int, domainS
 	}
 	enc := xml.NewEncoder(writer)
 	enc.Indent("", "    ")
-	enc.Encode(CreateXDMF(fields, prefix, num, domainSize))
-	writer.Close()
+	mustSave(enc.Encode(CreateXDMF(fields, prefix, num, domainSize)))
+	mustSave(writer.Close())
 }
diff --git a/pfutil/grid.go b/pfutil/grid.go
index 3baacd9..0f14f1b 100644
--- a/pfutil/grid.go
+++ b/pfutil/grid.go
@@ -80,16 +80,17 @@ func (g *Grid) FromComplex(carray []complex128) {
 func (g Grid) SaveCsv(fname string) {
 	f, err := os.Create(fname)
 	if err != nil {
-		fmt.Printf("%s\n", err)
+		panic(err)
 	}
-	defer f.Close()
 
 	header := "x,y,value\n"
 	dim := len(g.Dims)
 	if dim == 3 {
 		header = "x,y,z,value\n"
 	}
-	f.WriteString(header)
+	if _, err := f.WriteString(header); err != nil {
+		panic(err)
+	}
 	for i := range g.Data {
 		pos := g.Pos(i)
 		posString := []string{}
@@ -98,7 +99,12 @@ func (g Grid) SaveCsv(fname string) {
 		}
 		text := strings.Join(posString, ",")
 		text += fmt.Sprintf(",%f\n", g.Data[i])
-		f.WriteString(text)
+		if _, err := f.WriteString(text); err != nil {
+			panic(err)
+		}
+	}
+	if err := f.Close(); err != nil {
+		panic(err)
 	}
 }
 
-- 
2.43.0


From d6e25a99be28d8a4ffbb5eca344062057c534c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:26 +0000
Subject: [PATCH 15/59] fix: loading a file fails loudly if the file cannot be
 read completely

---
 cmd/energy.go |  4 +++-
 pf/fileIO.go  | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/energy.go b/cmd/energy.go
index 0cb9798..f09d5d3 100644
--- a/cmd/energy.go
+++ b/cmd/energy.go
@@ -35,7 +35,9 @@ passed via a JSON file. See gopf elast templatate for further information.
 		}
 
 		var params elasticity.StrainEnergyInput
-		json.Unmarshal(byteValue, &params)
+		if err := json.Unmarshal(byteValue, &params); err != nil {
+			log.Fatalf("Could not read %s: %s\n", infile, err)
+		}
 		energy := elasticity.CalculateStrainEnergy(params)
 		log.Printf("Elastic energy per volume inclusion: %f\n", energy)
 	},
diff --git a/pf/fileIO.go b/pf/fileIO.go
index d3680c9..a2904f1 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -85,7 +85,12 @@ func LoadFloat64(fname string) []float64 {
 	bytes := make([]byte, size)
 
 	data := make([]float64, len(bytes)/8)
-	binary.Read(infile, binary.BigEndian, data)
+	if len(bytes)%8 != 0 {
+		panic(fmt.Sprintf("LoadFloat64: %s ends in the middle of a number", fname))
+	}
+	if err := binary.Read(infile, binary.BigEndian, data); err != nil {
+		panic(err)
+	}
 	return data
 }
 
@@ -150,7 +155,10 @@ func LoadCSV(fname string) []Field {
 		}
 
 		for i := 0; i < len(fields); i++ {
-			v, _ := strconv.ParseFloat(record[i+3], 64)
+			v, err := strconv.ParseFloat(record[i+3], 64)
+			if err != nil {
+				log.Fatalf("Could not read value: %s\n", err)
+			}
 			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
 		}
 	}
-- 
2.43.0


From 15faa5ad055390dcd18ee1088a7dbe0b2d974a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:05 +0000
Subject: [PATCH 16/59] fix: transform non-cubic 3D domains in the layout of
 the nodes

---
 pfutil/fftWrap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..3066d30 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,15 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+
+	// FFTW expects the slowest varying dimension first. In 3D that is the depth
+	// (see NodeIdx)
+	layout := n
+	if len(n) == 3 {
+		layout = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(layout, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(layout, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From 41836730ed68d24e49ba2cbc353a771c1c526f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:43 +0000
Subject: [PATCH 17/59] fix: a tensorial Hessian keeps real fields real

---
 pf/tensorialHessian.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..95c0cd7 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,6 +53,12 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
+					// The sign of the Nyquist frequency is arbitrary. The mixed
+					// derivative has to vanish there, otherwise a real field
+					// turns into a complex one
+					if isNyquist(f[j]) || isNyquist(f[k]) {
+						continue
+					}
 					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
 					field[i] += complex(preFactor, 0.0)
 				}
@@ -61,6 +67,11 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 	}
 }
 
+// isNyquist returns true if f is the Nyquist frequency
+func isNyquist(f float64) bool {
+	return math.Abs(math.Abs(f)-0.5) < 1e-10
+}
+
 // GetCoeff return the i, j element of the coefficient tensor
 func (th *TensorialHessian) GetCoeff(i, j int) float64 {
 	d := 2
-- 
2.43.0


From 7258e04b2b99dc68eb15d86ed9b947fd7433491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:26 +0000
Subject: [PATCH 18/59] fix: Euler evaluates all equations before it updates
 the fields

---
 pf/euler.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..1a13663 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -23,14 +23,20 @@ func (eu *Euler) Step(m *Model) {
 		eu.FT.FFT(f.Data)
 	}
 
+	// Evaluate all right hand sides before any of the fields is updated
 	t := eu.GetTime()
+	rhs := make([][]complex128, len(m.Fields))
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])
+			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 
 		if eu.Filter != nil {
-- 
2.43.0


From a19f7e9ec1384517e4792210f2937270587dcfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 19/59] fix: RK4 evaluates its stages at their times

---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index bd8f571..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -123,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
-- 
2.43.0


From b96616b859466ff549279e3ece57131a2ef7484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:50 +0000
Subject: [PATCH 20/59] fix: a term never loses its fields

---
 pf/rhsBuilder.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..8ef438b 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -121,6 +121,21 @@ func ValidName(name string, model *Model) bool {
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
+// fieldFactors returns the product of all (powers of) fields in a term. The factors
+// are sorted in the same way as in the names of the derived fields
+func fieldFactors(term string, m *Model) string {
+	lapReg := regexp.MustCompile("^LAP(\\^\\d+)?")
+	nameNoPow := regexp.MustCompile("^[^\\^]*")
+	factors := []string{}
+	for _, factor := range strings.Split(strings.ReplaceAll(term, " ", ""), "*") {
+		factor = lapReg.ReplaceAllString(factor, "")
+		if m.IsFieldName(nameNoPow.FindString(factor)) {
+			factors = append(factors, factor)
+		}
+	}
+	return SortFactors(strings.Join(factors, "*"))
+}
+
 // ConcreteTerm returns a function representing the passed term
 func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 	term := termDelim.SubString
@@ -148,7 +163,11 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := fieldFactors(term, m)
+	if fieldName != "" && !m.IsFieldName(fieldName) {
+		msg := fmt.Sprintf("rhsBuilder: The product %s in the term %s is not a field", fieldName, term)
+		panic(msg)
+	}
 
 	if strings.Contains(term, "LAP") {
 		// Term with Laplace operator
-- 
2.43.0


From 7ca67167f09cb6d5fecac3260619b695c1601ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:51 +0000
Subject: [PATCH 21/59] fix: powers of fields with short names are not linear

---
 pf/rhsBuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 8ef438b..5c62006 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -87,7 +87,7 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 	}
 
 	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
+	regIncludingPowers := regexp.MustCompile(field + "[^/\\*]*")
 	res := regIncludingPowers.FindString(term)
 
 	// Extract an power (if exists) (the number after ^)
-- 
2.43.0


From 97256c7684714c700d86c8ad2b67464d422e55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:21 +0000
Subject: [PATCH 22/59] fix: names of derived fields are not search patterns

---
 pf/rhsBuilder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 5c62006..b991ee5 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -79,9 +79,8 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 		if f == field {
 			continue
 		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
+		// NOTE: The name of a derived field (e.g. A*conc^2) is not a pattern
+		if strings.Contains(term, f) {
 			return false
 		}
 	}
-- 
2.43.0


From ee3ce38cea75970973f753ea4385c5f3e6072dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:58 +0000
Subject: [PATCH 23/59] fix: consecutive signs in an equation are not lost

---
 pf/rhsBuilder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index b991ee5..6957d79 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -30,7 +30,7 @@ func Build(eq string, m *Model) RHS {
 	}
 
 	field := fieldNameFromLeibniz(sides[0])
-	termsStr := SplitOnMany(sides[1], []string{"+", "-"})
+	termsStr := SplitOnMany(mergeSigns(sides[1]), []string{"+", "-"})
 	var rhs RHS
 	for _, t := range termsStr {
 		name := removeKnownPrefixes(t.SubString)
@@ -53,6 +53,15 @@ func Build(eq string, m *Model) RHS {
 	return rhs
 }
 
+// mergeSigns replaces consecutive signs by one (e.g. a+-b by a-b)
+func mergeSigns(expr string) string {
+	replacer := strings.NewReplacer("++", "+", "+-", "-", "-+", "-", "--", "+")
+	for merged := replacer.Replace(expr); merged != expr; merged = replacer.Replace(expr) {
+		expr = merged
+	}
+	return expr
+}
+
 // fieldNameFromLeibniz extracts a field name from a Leibniz formatted
 // differnetation operation (e.g dkappa/dt)
 func fieldNameFromLeibniz(leibniz string) string {
-- 
2.43.0


From 5883974d0244b1edfac14cc821ce613b2acd6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 24/59] fix: names and Laplacians in equations are whole
 factors

---
 pf/rhsBuilder.go | 123 ++++++++++++++++++++++++++---------------------
 pf/util.go       |   8 +--
 2 files changed, 71 insertions(+), 60 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 6957d79..28d6801 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"math/cmplx"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -44,7 +43,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -74,43 +73,66 @@ func fieldNameFromLeibniz(leibniz string) string {
 	return leibniz[1 : len(leibniz)-3]
 }
 
-// isBilinear checks if the term given is bilinear in the passed field
-func isBilinear(term string, field string, fieldNames []string) bool {
-	fieldReg := regexp.MustCompile(field)
-	resCount := fieldReg.FindAllStringIndex(term, -1)
-	if len(resCount) != 1 {
-		return false
+var lapRegexp = regexp.MustCompile("^LAP(\\^\\d+)?")
+
+// termFactor represents one factor of a term. A Laplacian operator in front of the
+// factor is not a part of the expression
+type termFactor struct {
+	Lap  string
+	Name string
+	Expr string
+}
+
+// splitTerm splits a term into factors
+func splitTerm(term string) []termFactor {
+	factors := []termFactor{}
+	for _, item := range strings.Split(strings.ReplaceAll(term, " ", ""), "*") {
+		lap := lapRegexp.FindString(item)
+		expr := item[len(lap):]
+		factors = append(factors, termFactor{
+			Lap:  lap,
+			Name: strings.SplitN(expr, "^", 2)[0],
+			Expr: expr,
+		})
 	}
+	return factors
+}
 
-	// Check if any of ther other fields are present. In that case, the term
-	// will not be linear in the fourier domain
-	for _, f := range fieldNames {
-		if f == field {
-			continue
+// removeFactor removes the factors with the passed name. Laplacian operators are kept.
+func removeFactor(term string, name string) string {
+	remaining := []string{}
+	for _, factor := range splitTerm(term) {
+		if factor.Name == name {
+			factor.Expr = ""
 		}
-		// NOTE: The name of a derived field (e.g. A*conc^2) is not a pattern
-		if strings.Contains(term, f) {
-			return false
+		if factor.Lap+factor.Expr != "" {
+			remaining = append(remaining, factor.Lap+factor.Expr)
 		}
 	}
+	return strings.Join(remaining, "*")
+}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
-
-	// Extract an power (if exists) (the number after ^)
-	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-	strPower := regPower.FindStringSubmatch(res)
-	if len(strPower) <= 1 {
-		return true
-	}
-	power, err := strconv.ParseFloat(strPower[1], 64)
+// isBilinear checks if the term given is bilinear in the passed field
+func isBilinear(term string, field string, fieldNames []string) bool {
+	count := 0
+	for _, factor := range splitTerm(term) {
+		if factor.Name == field {
+			if math.Abs(GetPower(factor.Expr)-1.0) > 1e-10 {
+				return false
+			}
+			count++
+		}
 
-	if err != nil || math.Abs(power-1.0) < 1e-10 {
-		// No power or equal to 1
-		return true
+		// If any of the other fields are present, the term will not be linear in
+		// the fourier domain (a field whose name contains the name of another field
+		// is not treated as linear either)
+		for _, f := range fieldNames {
+			if f != field && (factor.Name == f || factor.Name == field && strings.Contains(field, f)) {
+				return false
+			}
+		}
 	}
-	return false
+	return count == 1
 }
 
 // ValidName returns true if the parser knows how to parse it
@@ -123,22 +145,17 @@ func ValidName(name string, model *Model) bool {
 		}
 	}
 
-	if nameStripped[:3] == "LAP" {
-		nameStripped = nameStripped[3:]
-	}
+	nameStripped = strings.TrimPrefix(nameStripped, "LAP")
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
 // fieldFactors returns the product of all (powers of) fields in a term. The factors
 // are sorted in the same way as in the names of the derived fields
 func fieldFactors(term string, m *Model) string {
-	lapReg := regexp.MustCompile("^LAP(\\^\\d+)?")
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
 	factors := []string{}
-	for _, factor := range strings.Split(strings.ReplaceAll(term, " ", ""), "*") {
-		factor = lapReg.ReplaceAllString(factor, "")
-		if m.IsFieldName(nameNoPow.FindString(factor)) {
-			factors = append(factors, factor)
+	for _, factor := range splitTerm(term) {
+		if m.IsFieldName(factor.Name) {
+			factors = append(factors, factor.Expr)
 		}
 	}
 	return SortFactors(strings.Join(factors, "*"))
@@ -152,21 +169,17 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
-
+	lapExpr := ""
 	brickNames := []string{}
 	powers := []float64{}
 
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
-
-		if !m.IsFieldName(name) && m.IsBrickName(name) {
-			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
-		} else if !ValidName(name, m) {
-			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
+	for _, factor := range splitTerm(term) {
+		lapExpr += factor.Lap
+		if !m.IsFieldName(factor.Name) && m.IsBrickName(factor.Name) {
+			brickNames = append(brickNames, factor.Name)
+			powers = append(powers, GetPower(factor.Expr))
+		} else if !ValidName(factor.Name, m) {
+			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", factor.Name)
 			panic(msg)
 		}
 	}
@@ -177,11 +190,9 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		panic(msg)
 	}
 
-	if strings.Contains(term, "LAP") {
+	if lapExpr != "" {
 		// Term with Laplace operator
-		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
-		res := lapWithPowReg.FindString(term)
-		lap := LaplacianN{Power: int(GetPower(res))}
+		lap := LaplacianN{Power: int(GetPower(lapExpr))}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
diff --git a/pf/util.go b/pf/util.go
index 20af17b..eccc7c1 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -20,10 +20,10 @@ func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []str
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, factor := range splitTerm(pattern) {
+			if factor.Name == fieldNames[i] {
+				expr += factor.Expr + "*"
+			}
 		}
 	}
 
-- 
2.43.0


From 83e7d7c4593d26e76441da492a4cb3133b0d2fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 25/59] fix: refuse Laplacians that do not act on all fields of
 a term

---
 pf/rhsBuilder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 28d6801..e026570 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -32,6 +32,7 @@ func Build(eq string, m *Model) RHS {
 	termsStr := SplitOnMany(mergeSigns(sides[1]), []string{"+", "-"})
 	var rhs RHS
 	for _, t := range termsStr {
+		panicOnMisplacedLaplacian(t.SubString, m)
 		name := removeKnownPrefixes(t.SubString)
 		prefixes := getKnownPrefixes(t.SubString)
 		prefixes = append(prefixes, t.PreceedingDelimiter)
@@ -112,6 +113,21 @@ func removeFactor(term string, name string) string {
 	return strings.Join(remaining, "*")
 }
 
+// panicOnMisplacedLaplacian panics if a Laplacian operator does not act on all
+// fields in the term
+func panicOnMisplacedLaplacian(term string, m *Model) {
+	hasField := false
+	hasLap := false
+	for _, factor := range splitTerm(term) {
+		if factor.Lap != "" && (hasField || hasLap) {
+			msg := fmt.Sprintf("rhsBuilder: LAP must occur once and before all fields. Got %s", term)
+			panic(msg)
+		}
+		hasLap = hasLap || factor.Lap != ""
+		hasField = hasField || m.IsFieldName(factor.Name)
+	}
+}
+
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
 	count := 0
-- 
2.43.0


From 35f719e3d7d49d623760ed7fba5255c67f97e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 26/59] fix: equations evolve the field on their left hand side

---
 pf/model.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 4145126..447ea79 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -279,23 +279,39 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
+// equationNo returns the number of the equation that evolves the passed field. Fields that
+// are not on the left hand side of any equation are evolved by the equation with the same
+// number.
+func (m *Model) equationNo(fieldNo int) int {
+	lhs := "d" + m.Fields[fieldNo].Name + "/dt="
+	for i, eq := range m.Equations {
+		if strings.HasPrefix(strings.ReplaceAll(eq, " ", ""), lhs) {
+			return i
+		}
+	}
+	return fieldNo
+}
+
 // GetRHS evaluates the right hand side of one of the equations
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+
+	// NOTE: The equations can be added in another order than the fields
+	eqNo := m.equationNo(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
@@ -306,7 +322,7 @@ func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	for _, f := range m.RHS[m.equationNo(fieldNo)].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
-- 
2.43.0


From 654615b66d8d68715cc4a21429288e5ded4a9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 27/59] fix: Laplacian operators in a row are applied one after
 the other, operators without operand are refused

---
 pf/rhsBuilder.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index e026570..691b4c5 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -74,7 +74,7 @@ func fieldNameFromLeibniz(leibniz string) string {
 	return leibniz[1 : len(leibniz)-3]
 }
 
-var lapRegexp = regexp.MustCompile("^LAP(\\^\\d+)?")
+var lapRegexp = regexp.MustCompile("^(LAP(\\^\\d+)?)+")
 
 // termFactor represents one factor of a term. A Laplacian operator in front of the
 // factor is not a part of the expression
@@ -99,6 +99,15 @@ func splitTerm(term string) []termFactor {
 	return factors
 }
 
+// laplacianPower returns the power of a (possibly repeated) Laplacian operator
+func laplacianPower(lap string) int {
+	power := 0
+	for _, item := range strings.Split(lap, "LAP")[1:] {
+		power += int(GetPower(item))
+	}
+	return power
+}
+
 // removeFactor removes the factors with the passed name. Laplacian operators are kept.
 func removeFactor(term string, name string) string {
 	remaining := []string{}
@@ -114,18 +123,23 @@ func removeFactor(term string, name string) string {
 }
 
 // panicOnMisplacedLaplacian panics if a Laplacian operator does not act on all
-// fields in the term
+// fields in the term, or if there is nothing it can act on
 func panicOnMisplacedLaplacian(term string, m *Model) {
 	hasField := false
 	hasLap := false
+	hasOperand := false
 	for _, factor := range splitTerm(term) {
 		if factor.Lap != "" && (hasField || hasLap) {
 			msg := fmt.Sprintf("rhsBuilder: LAP must occur once and before all fields. Got %s", term)
 			panic(msg)
 		}
 		hasLap = hasLap || factor.Lap != ""
+		hasOperand = hasOperand || hasLap && factor.Expr != ""
 		hasField = hasField || m.IsFieldName(factor.Name)
 	}
+	if hasLap && !hasOperand {
+		panic(fmt.Sprintf("rhsBuilder: LAP does not act on anything in %s", term))
+	}
 }
 
 // isBilinear checks if the term given is bilinear in the passed field
@@ -208,7 +222,7 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 
 	if lapExpr != "" {
 		// Term with Laplace operator
-		lap := LaplacianN{Power: int(GetPower(lapExpr))}
+		lap := LaplacianN{Power: laplacianPower(lapExpr)}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
-- 
2.43.0


From 98e1ee11c7ed03ff0b244cab3179294766fec541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:47 +0000
Subject: [PATCH 28/59] fix: powers in equations that are not numbers are
 refused

---
 pf/rhsBuilder.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 691b4c5..96d1390 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"math/cmplx"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -34,6 +35,9 @@ func Build(eq string, m *Model) RHS {
 	for _, t := range termsStr {
 		panicOnMisplacedLaplacian(t.SubString, m)
 		name := removeKnownPrefixes(t.SubString)
+		if !m.IsUserDefinedTerm(name) {
+			panicOnInvalidPower(t.SubString)
+		}
 		prefixes := getKnownPrefixes(t.SubString)
 		prefixes = append(prefixes, t.PreceedingDelimiter)
 		if m.IsImplicitTerm(name) {
@@ -142,6 +146,19 @@ func panicOnMisplacedLaplacian(term string, m *Model) {
 	}
 }
 
+// panicOnInvalidPower panics if there is a factor whose power is not a number
+func panicOnInvalidPower(term string) {
+	for _, factor := range splitTerm(term) {
+		if factor.Name == factor.Expr {
+			continue
+		}
+		power, err := strconv.ParseFloat(strings.TrimPrefix(factor.Expr, factor.Name+"^"), 64)
+		if factor.Name == "" || err != nil || power != GetPower(factor.Expr) {
+			panic(fmt.Sprintf("rhsBuilder: The power in %s is not a number", factor.Lap+factor.Expr))
+		}
+	}
+}
+
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
 	count := 0
-- 
2.43.0


From 1c29a51c8aa50c64ce72d77cdf81ef86ab8e907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 29/59] fix: terms without fields act in the same way on all
 nodes

---
 pf/rhsBuilder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 96d1390..14c0056 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -50,6 +50,8 @@ func Build(eq string, m *Model) RHS {
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
 			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
+		} else if fieldFactors(t.SubString, m) == "" {
+			rhs.Terms = append(rhs.Terms, uniformTerm(ConcreteTerm(t, m)))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
 		}
@@ -274,6 +276,18 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 	}
 }
 
+// uniformTerm returns the fourier transform of a term without fields (e.g. the same
+// value in all nodes)
+func uniformTerm(term Term) Term {
+	return func(freq Frequency, t float64, field []complex128) {
+		term(freq, t, field)
+		field[0] *= complex(float64(len(field)), 0.0)
+		for i := 1; i < len(field); i++ {
+			field[i] = 0.0
+		}
+	}
+}
+
 // flipSign multiplies all items in the passed array by -1
 func flipSign(data []complex128) {
 	for i := range data {
-- 
2.43.0


From a579add19316dba2475a6bcaa72f55fc27af0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:41 +0000
Subject: [PATCH 30/59] fix: the prefactor of the ideal mixture term applies to
 its nonlinear part too

---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..96669ae 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -161,7 +161,7 @@ func (idt *IdealMixtureTerm) ConstructNonLinear(bricks map[string]Brick) Term {
 	return func(freq Frequency, t float64, field []complex128) {
 		if b, ok := bricks[idt.nonLinearDerivedFieldName()]; ok {
 			for i := range field {
-				field[i] = b.Get(i)
+				field[i] = complex(idt.Prefactor, 0.0) * b.Get(i)
 			}
 
 			if idt.Laplacian {
-- 
2.43.0


From e10fc9db96844042e56ba7c4460fc135f71b8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:32 +0000
Subject: [PATCH 31/59] fix: tensorial Hessian uses both off-diagonal elements
 of the tensor

---
 pf/tensorialHessian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 95c0cd7..0c18a9e 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -59,7 +59,7 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 					if isNyquist(f[j]) || isNyquist(f[k]) {
 						continue
 					}
-					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
+					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
 			}
-- 
2.43.0


From be6a5c4d7f76eaece04250ae0aca17052396c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:03 +0000
Subject: [PATCH 32/59] fix: DivGrad keeps real fields real at the Nyquist
 frequency

---
 pf/gradientCalculator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..86e1ddb 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -99,6 +99,11 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.FuncName()+dg.GradName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				if isNyquist(f) {
+					// The sign of the Nyquist frequency is arbitrary (see also
+					// GradientCalculator). A real field has to stay real.
+					continue
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From 1c3b5e60e0375c27efa69146ddee9d1259708fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 33/59] fix: the elastic tensor of cubic materials is symmetric
 in its last two indices

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From be0340240d7bc331e9cf137e33dfa8b2b024994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:21 +0000
Subject: [PATCH 34/59] fix: the elastic term keeps real fields real at the
 Nyquist frequency

---
 pf/homoLinElast.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..5275cd5 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -71,6 +71,11 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 				strains := elasticity.Strain(disp, h.Freq, i, j)
 				h.FT.IFFT(strains) // Obtain real-space strains
 				pfutil.DivRealScalar(strains, float64(len(strains)))
+				for k := range strains {
+					// The sign of the Nyquist frequency is arbitrary, thus the
+					// displacements can contain an imaginary contribution
+					strains[k] = complex(real(strains[k]), 0.0)
+				}
 				pfutil.ElemwiseMul(strains, work)
 				h.FT.FFT(strains)
 
-- 
2.43.0


From 1b0fd45fe80c86892afca462ee0d3ced09035f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 35/59] fix: the negative value penalty with an even exponent
 is zero as documented

---
 pf/negative_value_penalty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..f8b19b9 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -13,7 +13,8 @@ type NegativeValuePenalty struct {
 
 // Penalty returns the derivative of the underlying function
 func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
-	if x > 0.0 {
+	// The function vanishes for all x if the exponent is even
+	if x > 0.0 || nvp.Exponent%2 == 0 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-- 
2.43.0


From 121f3b268888d435712dfbaa184ce2815c44313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 36/59] fix: several advection terms can act on the same field

---
 pf/advection.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..4723dad 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -63,7 +63,8 @@ func (ad *Advection) PrepareModel(N int, m *Model, FT FourierTransform) {
 			Comp: d,
 		}
 		dField := grad.ToDerivedField(ad.GradName(d), N, m.Bricks[ad.Field])
-		m.RegisterDerivedField(dField)
+		// Several terms can share the gradients
+		m.registerDerivedFields([]DerivedField{dField})
 	}
 
 	vDotGradField := DerivedField{
@@ -81,7 +82,7 @@ func (ad *Advection) PrepareModel(N int, m *Model, FT FourierTransform) {
 			}
 		},
 	}
-	m.RegisterDerivedField(vDotGradField)
+	m.registerDerivedFields([]DerivedField{vDotGradField})
 }
 
 // Construct builds the right hand side function
-- 
2.43.0


From f05f0a1193fbcb4709cd5ac2bfd0ee957878dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 37/59] fix: several DivGrad terms can act on the same field

---
 pf/gradientCalculator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 86e1ddb..6f6c737 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -50,10 +50,16 @@ func (g *GradientCalculator) ToDerivedField(name string, N int, brick Brick) Der
 type DivGrad struct {
 	Field string
 	F     GenericFunction
+
+	// number of other DivGrad terms of the same field in the model
+	number int
 }
 
 // FuncName returns the name of the generic function F
 func (dg *DivGrad) FuncName() string {
+	if dg.number > 0 {
+		return fmt.Sprintf("DivGrad_%s_Func%d", dg.Field, dg.number)
+	}
 	return fmt.Sprintf("DivGrad_%s_Func", dg.Field)
 }
 
@@ -68,6 +74,13 @@ func (dg *DivGrad) GradName(comp int) string {
 // required for gradient evaluations
 func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 	dim := len(FT.Freq(0))
+
+	// Terms with different functions need derived fields of their own
+	dg.number = 0
+	for m.IsFieldName(dg.FuncName() + dg.GradName(0)) {
+		dg.number++
+	}
+
 	for d := 0; d < dim; d++ {
 		grad := GradientCalculator{
 			FT:          FT,
@@ -75,7 +88,7 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 			KeepNyquist: false,
 		}
 		dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
-		m.RegisterDerivedField(dField)
+		m.registerDerivedFields([]DerivedField{dField})
 
 		dField2 := DerivedField{
 			Name: dg.FuncName() + dg.GradName(d),
-- 
2.43.0


From 8d4292179d110aa78b6d680b64ab5f87c351966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 38/59] fix: ideal mixture terms with different parameters do
 not share a derived field

---
 pf/pairCorrelationTerm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 96669ae..6dbf56c 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -137,7 +137,9 @@ func (idt *IdealMixtureTerm) ConstructLinear(bricks map[string]Brick) Term {
 }
 
 func (idt *IdealMixtureTerm) nonLinearDerivedFieldName() string {
-	return fmt.Sprintf("ideal_mixture_%s_nonlin", idt.Field)
+	// The parameters are part of the name as terms with different parameters need
+	// derived fields of their own
+	return fmt.Sprintf("ideal_mixture_%s_nonlin_%v_%v", idt.Field, idt.IdealMix.C3, idt.IdealMix.C4)
 }
 
 // DerivedField returns the required derived field that is nessecary in order
-- 
2.43.0


From 16642b5d46645effd48869be10c5cc90226c51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 39/59] fix: derived fields of advection terms do not collide
 with fields of the user

---
 pf/advection.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 4723dad..0bada92 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -2,6 +2,7 @@ package pf
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/davidkleiven/gopf/pfutil"
 )
@@ -21,18 +22,13 @@ type Advection struct {
 
 // GradName returns the gradient term associated with the field
 func (ad *Advection) GradName(comp int) string {
-	return fmt.Sprintf("%s_%d", ad.Field, comp)
+	return fmt.Sprintf("ADVECTION_GRAD_%s_%d", ad.Field, comp)
 }
 
 // GetName returns the name of the brick corresponding to
 // vDotGradField
 func (ad *Advection) GetName() string {
-	name := ""
-	for _, vel := range ad.VelocityFields {
-		name += vel
-	}
-	name += "Dot" + "Grad" + ad.Field
-	return name
+	return strings.Join(ad.VelocityFields, ",") + "DotGrad" + ad.Field
 }
 
 // AllFieldsExist returns true if all the fields are registered in the model
-- 
2.43.0


From fe6b651509d35f118795a2a8bff6d36827a2d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 40/59] fix: Scalar.SetFloat sets the value

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 447ea79..9bc9191 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From dcc243077e8b54c66f28a5e87431986fe6b67944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 41/59] fix: contour plots look up the node by its position

The rows of the file were taken in the order in which they appear, which
transposed the field (or scrambled it if the sides have different lengths).
---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From 0ba1757ed94c0f7b2b07dbf81e3d819367b96ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 42/59] fix: contour plots show y in the direction of the axis

Images begin with the topmost row, such that the field was shown upside down
with respect to the labels of the y-axis.
---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index a917f53..d29d66d 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -327,7 +327,7 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			img.Set(i, m-1-j, color) // the first row of an image is the topmost
 		}
 	}
 	return img
-- 
2.43.0


From 7ce5afade86d5bbd470d323ff4c947bedbf36c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:39 +0000
Subject: [PATCH 43/59] fix: a contour plot that could not be written
 completely is not announced

---
 cmd/contour.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index d29d66d..6914ccd 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -127,12 +127,13 @@ will be selected.
 		if err != nil {
 			log.Fatalf("Could not open file: %s\n", err)
 		}
-		defer file.Close()
-
 		_, err = png.WriteTo(file)
 		if err != nil {
 			log.Fatalf("Could not write to file: %s\n", err)
 		}
+		if err := file.Close(); err != nil {
+			log.Fatalf("Could not write to file: %s\n", err)
+		}
 		log.Printf("Image written to %s\n", out)
 	},
 }
-- 
2.43.0


From 3317b5bcec6172b7d87fc28583e36ebc92971262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 44/59] fix: lineplot plots the fields that were asked for

The flag --data was ignored (the value was read from a flag that does not exist).
---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..c34f1ce 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Could not read data: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0


From 5055e38bb779282fab15cdb7e4ba1bb66ece8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 45/59] fix: SDD uses the forces on all fields and reflects
 them together

---
 pf/sdd.go | 63 +++++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 77cce2b..2ec57bb 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -196,41 +196,44 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)
 	sdd.fft(m)
 
-	work := make([]complex128, m.NumNodes())
-
-	// Array that is used to track changes in the produced field
-	origField := make([]complex128, m.NumNodes())
 	sdd.Monitor.MaxForce = 0.0
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
-	for i := range m.Fields {
-		copy(origField, m.Fields[i].Data)
-		// Fill the work array with the weighted average of the field values
-		w1 := complex(sdd.Alpha, 0.0)
-		w2 := complex(1.0-sdd.Alpha, 0.0)
-		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
-		}
-		d := m.Fields[i].Data
-		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-		sdd.householder(work, activeFtOrient, 2.0, m.NumNodes())
+	// Fill the work array with the weighted average of the forces on all fields
+	w1 := complex(sdd.Alpha, 0.0)
+	w2 := complex(1.0-sdd.Alpha, 0.0)
+	work := make([]complex128, len(ftOrientation))
+	for j := range work {
+		work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+	}
+	sdd.householder(work, ftOrientation, 2.0, m.NumNodes())
 
-		// Apply euler scheme
-		for j := range d {
-			d[j] = (d[j] + cDt*work[j])
-		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
-		dsm.dot(d)
+	// Apply euler scheme. The orientation couples the fields, thus all fields are treated
+	// as one vector
+	d := make([]complex128, len(ftOrientation))
+	denum := make([]complex128, len(ftOrientation))
+	for i := range m.Fields {
+		start := i * m.NumNodes()
+		copy(d[start:], m.Fields[i].Data)
+		copy(denum[start:], m.GetDenum(i, sdd.ft.Freq, sdd.GetTime()))
+	}
+	for j := range d {
+		d[j] += cDt * work[j]
+	}
+	dsm := sdd.householderDenum(denum, ftOrientation, 2.0)
+	dsm.dot(d)
 
-		for j := range d {
-			diff := cmplx.Abs((d[j] - origField[j]) / cDt)
+	for i := range m.Fields {
+		start := i * m.NumNodes()
+		for j := range m.Fields[i].Data {
+			diff := cmplx.Abs((d[start+j] - m.Fields[i].Data[j]) / cDt)
 			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
 			if diff > sdd.Monitor.MaxForce {
 				sdd.Monitor.MaxForce = diff
 			}
 		}
+		copy(m.Fields[i].Data, d[start:start+m.NumNodes()])
 	}
 
 	// Normalize power spectrum by <number of fields> * <number of nodes>
@@ -246,13 +249,8 @@ func (sdd *SDD) Step(m *Model) {
 	// Add contribution from the linear part. The fourier transformed linear part is given
 	// by F(k)*x, where x is the field. Thus the difference between the start and end is
 	// F(k)*(x - alpha*l*v) - F(k)*(x + (1-alpha)*l*v) = -F(k)*v*l
-	outerIdx := 0
-	for i := range m.Fields {
-		denum := m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		for j := range denum {
-			torque[outerIdx] -= denum[j] * ftOrientation[outerIdx] * complex(l, 0.0)
-			outerIdx++
-		}
+	for i := range torque {
+		torque[i] -= denum[i] * ftOrientation[i] * complex(l, 0.0)
 	}
 
 	// UpdateOrientation updates the orientation. The dynamic equation for the orientation is
@@ -335,9 +333,10 @@ func (sdd *SDD) householderDenum(data []complex128, ftOrientation []complex128,
 	}
 
 	cSigma := complex(sigma, 0.0)
+	numNodes := float64(pfutil.ProdInt(sdd.ft.Dimensions))
 	for i := range data {
 		dsm.invDiagonal[i] = 1.0 / (1.0 - cDt*data[i])
-		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(len(data)), 0.0)
+		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(numNodes, 0.0)
 	}
 	dsm.u = ftOrientation
 	return dsm
-- 
2.43.0


From 3972cb9f4f9f76bf61e1d917a8e067af0f535771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 46/59] fix: the force of a perturbation is a divergence: its
 second index goes with the frequency

---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From e4c2cd147a77a8761159e817abc9b478110abf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 47/59] fix: half axes of an inclusion belong to the same axes
 as its misfit strain

---
 elasticity/strainEnergyCLI.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elasticity/strainEnergyCLI.go b/elasticity/strainEnergyCLI.go
index 25cbbcf..049356d 100644
--- a/elasticity/strainEnergyCLI.go
+++ b/elasticity/strainEnergyCLI.go
@@ -46,7 +46,8 @@ func CalculateStrainEnergy(params StrainEnergyInput) float64 {
 				v := math.Pow(x/params.HalfA, 2) + math.Pow(y/params.HalfB, 2) + math.Pow(z/params.HalfC, 2)
 
 				if v <= 1.0 {
-					indicator.Set(i, j, k, complex(1.0, 0.0))
+					// The first frequency of FFT3 is the one along the columns
+					indicator.Set(j, i, k, complex(1.0, 0.0))
 				}
 			}
 		}
-- 
2.43.0


From 15ea2213e73e8ee895c28a8a2f0943b6822ab8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 48/59] fix: contour and lineplot showed the positions instead
 of a field called X, Y or Z

---
 cmd/contour.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index 6914ccd..9489a03 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -215,8 +215,9 @@ func getColIndex(header []string, column string) int {
 	if column == "" {
 		return 3
 	}
-	for i, v := range header {
-		if v == column {
+	// The three first columns are positions, a field may still be called X, Y or Z
+	for i := 3; i < len(header); i++ {
+		if header[i] == column {
 			return i
 		}
 	}
-- 
2.43.0


From 9478adf049931f5d5b4c5d0ec0f2d40dff426844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 49/59] fix: contour could not plot a uniform field

---
 cmd/contour.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index 9489a03..40cff92 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -20,6 +20,7 @@ import (
 	"image"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -79,6 +80,10 @@ will be selected.
 		data := NewHeatMapData(rows)
 		colormap := moreland.Kindlmann()
 		rng := max - min
+		if rng == 0.0 {
+			// A uniform field has no range, the colors are centred at its value
+			rng = math.Max(1.0, math.Abs(min))
+		}
 		colormap.SetMin(min - 0.05*rng)
 		colormap.SetMax(max + 0.05*rng)
 
-- 
2.43.0


From 61bd262daea2130444b64262017d16f2d9d7c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 50/59] fix: lineplot showed the first field under the name of
 a field that does not exist

---
 cmd/lineplot.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index c34f1ce..a28d6c6 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -108,7 +108,9 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 
 		plt := plot.New()
 
+		header := readHeader(fname)
 		for i, name := range fieldArray {
+			name = header[getColIndex(header, name)]
 			rows := readData(fname, name)
 			data := lineData(rows, x, y, z)
 			log.Printf("Extracted %d points for field %s\n", len(data), name)
-- 
2.43.0


From 5eb62d7699ed5c731d936bcf77429a2f50670a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 51/59] fix: lineplot joined nodes that are not neighbours when
 they are listed in another order

---
 cmd/lineplot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index a28d6c6..b2cd27a 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -17,6 +17,7 @@ package cmd
 
 import (
 	"log"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -204,5 +205,8 @@ func lineData(rows []DataRow, x int, y int, z int) plotter.XYs {
 			})
 		}
 	}
+
+	// The curve joins the nodes in order of their position, in whatever order they are listed
+	sort.SliceStable(xys, func(i, j int) bool { return xys[i].X < xys[j].X })
 	return xys
 }
-- 
2.43.0


From 2ad9219e4e6dcff166b84b613ad2e957b2b52189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 52/59] fix: contour and lineplot refused tables in the format
 that they document

---
 cmd/contour.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index 40cff92..d523444 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -239,6 +239,7 @@ func readData(fname string, column string) []DataRow {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true // the documented format has a blank after each comma
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
@@ -313,6 +314,7 @@ func readHeader(fname string) []string {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true // the documented format has a blank after each comma
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
-- 
2.43.0


From 21f3ec4dfaccbc4a17a36dd2e80489c39c9077ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 53/59] fix: a source between two nodes turned real fields into
 complex ones

---
 pf/sourceTerm.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pf/sourceTerm.go b/pf/sourceTerm.go
index b58c747..1ce8926 100644
--- a/pf/sourceTerm.go
+++ b/pf/sourceTerm.go
@@ -24,8 +24,17 @@ func NewSource(pos []float64, f TimeDepSource) Source {
 // Eval evaluates the fourier transformed source term and places the result in data
 func (s *Source) Eval(freq Frequency, t float64, data []complex128) {
 	for i := range data {
-		k := freq(i)
-		data[i] = complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))
+		k := append([]float64{}, freq(i)...)
+		amplitude := s.f(t)
+		for j := range k {
+			// The sign of the Nyquist frequency is arbitrary. Both signs contribute the
+			// same, otherwise a source between two nodes turns a real field into a complex one
+			if isNyquist(k[j]) {
+				amplitude *= math.Cos(2.0 * math.Pi * k[j] * s.Pos[j])
+				k[j] = 0.0
+			}
+		}
+		data[i] = complex(amplitude, 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))
 	}
 }
 
-- 
2.43.0


From 1fda8d4a6722bac47690da3506f37b3a6ae0dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:26 +0000
Subject: [PATCH 54/59] fix: documented order of the conductivities was not the
 one that is used

---
 pf/chargeTransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..c20b4fb 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -32,7 +32,7 @@ import (
 // and r is the real space position vector. E_ext is the external electric field
 type ChargeTransport struct {
 	// Conductivity return the conductivity tensor at node i. If 3D
-	// the order should be s_xx, s_yy, s_zz, s_xz, s_yz, s_xy and if 2D
+	// the order should be s_xx, s_yy, s_zz, s_yz, s_xz, s_xy and if 2D
 	// it should be s_xx, s_yy, s_xy. The vacuum permittivity should be embeded
 	// in the conductivity. Thus, if the "normal" conductiviy in Ohm's law is
 	// labeled sigma, the current density is given by j = sigma*E, this function
-- 
2.43.0


From 1aa047a62a867ace4db0dcc763bcd33ff4b8785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:41 +0000
Subject: [PATCH 55/59] fix: exported time series showed zeros for values that
 were never stored

---
 cmd/export.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index 86a9b32..86da6cb 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -5,6 +5,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"log"
+	"math"
 	"os"
 
 	"github.com/spf13/cobra"
@@ -192,7 +193,12 @@ func exportTimeseries(db *sql.Tx, outfile string, simid int) {
 	record := make([]string, len(keys))
 	for _, item := range dataArray {
 		for j, k := range keys {
-			record[j] = fmt.Sprintf("%f", item[k])
+			value, ok := item[k]
+			if !ok {
+				// Not stored at this timestep
+				value = math.NaN()
+			}
+			record[j] = fmt.Sprintf("%f", value)
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From 761601025cae67d6af38ea8fd109b249ffbd110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:41 +0000
Subject: [PATCH 56/59] fix: export refused the documented type fielddata and
 described another form of the time series

---
 cmd/export.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 86da6cb..5b1cf61 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -21,9 +21,9 @@ Example:
 
 gopf db export mydatabase.db --type timeseries
 
-exports all temperature data to a csv file where the timestep is stored in the first
-column and corresponding values in the remaining columns. The first row is a header
-that describes the content of the file.
+exports all timeseries to a csv file with one column for each of them. The first row is
+a header that describes the content of the file. The following rows are the values of
+timestep 0, 1, 2 and so on. Values that are not stored for a timestep are given as NaN.
 
 gopf db export mystabaset.db --type fielddata --timestep 0
 
@@ -96,7 +96,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(tx, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fielddata", "fieldData", "fd":
 			if all {
 				steps := allTimeSteps(tx, simid)
 				for _, step := range steps {
-- 
2.43.0


From bda4a5ec0c6e6337fc6ba9647a3e3723b0e6a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 57/59] fix: db attr --simid 0 showed the attributes of all
 simulations

---
 cmd/attr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 69c885f..9b286cb 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -100,12 +100,12 @@ func listUniqueAttributes(db *sql.DB) {
 	mustBeDone(rows)
 }
 
-// listAttributes lists the attributes. If simulationID is greater than 0, only attributes
+// listAttributes lists the attributes. If simulationID is not negative, only attributes
 // belonging to the passed ID is printed. If it is negative, all simulation IDs are included.
 func listAttributes(db *sql.DB, simulationID int) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes WHERE simId=?", simulationID)
 	} else {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes")
@@ -198,7 +198,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=?", name)
@@ -217,7 +217,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	}
 	mustBeDone(rows)
 
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
-- 
2.43.0


From 1d97aecffd2c384634a5b7a3fa3d476a48b36503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 58/59] fix: equations that start with two different signs
 could not be added

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 9bc9191..288cbb7 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -164,7 +164,7 @@ func (m *Model) AddEquation(eq string) {
 // UpdateDerivedFields update fields that needs to be handle with FFT (required for non-linear equations)
 func (m *Model) UpdateDerivedFields(eq string) {
 	rhs := strings.Split(eq, "=")[1]
-	splittedDelim := SplitOnMany(rhs, []string{"+", "-"})
+	splittedDelim := SplitOnMany(mergeSigns(rhs), []string{"+", "-"})
 	splitted := make([]string, len(splittedDelim))
 	for i := range splittedDelim {
 		splitted[i] = splittedDelim[i].SubString
-- 
2.43.0


From aae8d7360176a9ca12e4edfa1d1c5d314de57191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:25 +0000
Subject: [PATCH 59/59] fix: implicit terms that use the frequency of the third
 direction were refused

---
 pf/model.go  | 12 +++++++++++-
 pf/solver.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 288cbb7..c013039 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -242,6 +242,12 @@ func (m *Model) SyncDerivedFields() {
 
 // Init prepares the model
 func (m *Model) Init() {
+	m.prepare(2)
+}
+
+// prepare prepares a model with dim directions. The implicit terms are validated with
+// a frequency that has one entry per direction
+func (m *Model) prepare(dim int) {
 	m.RHS = m.RHS[:0]
 	for _, eq := range m.Equations {
 		m.RHS = append(m.RHS, Build(eq, m))
@@ -249,9 +255,13 @@ func (m *Model) Init() {
 	m.SyncDerivedFields()
 
 	// Validate all implicit terms
+	freq := make([]float64, dim)
+	for i := range freq {
+		freq[i] = 0.4
+	}
 	for k, v := range m.ImplicitTerms {
 		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return []float64{0.4, 0.4}
+			return freq
 		}) {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
diff --git a/pf/solver.go b/pf/solver.go
index fbf519a..2782186 100644
--- a/pf/solver.go
+++ b/pf/solver.go
@@ -39,7 +39,7 @@ type Solver struct {
 // NewSolver initializes a new solver
 func NewSolver(m *Model, domainSize []int, dt float64) *Solver {
 	var solver Solver
-	m.Init()
+	m.prepare(len(domainSize))
 	solver.Model = m
 	solver.Dt = dt
 	solver.Callbacks = []SolverCB{}
-- 
2.43.0


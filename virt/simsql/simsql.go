// Package simsql stands in for package database/sql in the tool: it is the
// real package, except that connections go to the simulated server.
package simsql

import (
	"database/sql"
	"database/sql/driver"
	"errors"
)

// Connect makes the connector for a data source; set by the worker.
var Connect func(driverName, dsn string) (driver.Connector, error)

func Open(driverName, dsn string) (*sql.DB, error) {
	if Connect == nil {
		return nil, errors.New("simsql: no server")
	}
	c, err := Connect(driverName, dsn)
	if err != nil {
		return nil, err
	}
	return sql.OpenDB(c), nil
}

func OpenDB(c driver.Connector) *sql.DB { return sql.OpenDB(c) }

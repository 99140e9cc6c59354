ALTER TABLE test_user ALTER COLUMN full_name DROP NOT NULL;
ALTER TABLE test_user DROP COLUMN is_active;
ALTER TABLE test_user ALTER COLUMN metadata1 DROP DEFAULT;
ALTER TABLE test_user ALTER COLUMN metadata1 TYPE jsonb USING metadata1::text::jsonb;
ALTER TABLE column_tests_1 DROP COLUMN col_d CASCADE;
ALTER TABLE fx_items DROP CONSTRAINT fx_items_pkey;
ALTER TABLE fx_items DROP COLUMN qty;
ALTER TABLE acct ALTER COLUMN uid DROP DEFAULT;
ALTER TABLE acct ALTER COLUMN uid TYPE text;
ALTER TABLE acct ALTER COLUMN doc TYPE json USING doc::text::json;
ALTER TABLE pair DROP CONSTRAINT pair_pkey;
ALTER TABLE pair ADD PRIMARY KEY (b);
ALTER TABLE log RENAME COLUMN v TO vv;
DROP FUNCTION fx_read();

package h

import (
	"image"
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// fullUser is a user with every field of a database file set.
func fullUser() *identity.User {
	t1, t2, t3 := t0.AddDate(0, 1, 1), t0.AddDate(0, 2, 2), t0.Add(123456789)
	hash := "$2a$04$kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"
	n := &identity.Name{First: "First", Last: "Last", Middle: "M", Preferred: "P", Nickname: true, Confirmed: true, Primary: true, Legal: true, Alias: true}
	o := &identity.Organization{ID: 1<<64 - 1, Name: "org", Aliases: []string{"o1", "o2"}}
	m := &identity.EmailAddress{Address: "full@x.io", Confirmed: true, Domain: "x.io"}
	return &identity.User{
		ID: uids[0], Enabled: true, Human: true, Username: "Full", Title: "Dr", Name: n, Organization: o,
		Names: []*identity.Name{n, {First: "Only"}}, Organizations: []*identity.Organization{o, {Name: "other"}},
		StreetAddress:  []*identity.Location{{Street: "s", City: "c", State: "t", ZipCode: "z", Confirmed: true, Current: true, Domicile: true, Residential: true, Commercial: true}, {City: "d"}},
		EmailAddress:   m,
		EmailAddresses: []*identity.EmailAddress{m, {Address: "f2@y.com", Domain: "y.com"}},
		Passwords:      []*identity.Password{{Purpose: "generic", Algorithm: "bcrypt", Hash: hash, Cost: 12, Expired: true, ExpiredAt: t1, CreatedAt: t3, Disabled: true, DisabledAt: t2}, {Purpose: "p", Algorithm: "bcrypt", Hash: hash}},
		PublicKeys: []*identity.PublicKey{{ID: "pid", Usage: "ssh", Type: "ssh-rsa", Fingerprint: "fp", FingerprintMD5: "md", Comment: "c", Payload: "p", OpenSSH: "o", Expired: true, ExpiredAt: t1, CreatedAt: t3, Disabled: true, DisabledAt: t2},
			{ID: "pid2"}},
		APIKeys: []*identity.APIKey{{ID: "kid", Prefix: "pre", Usage: "api", Comment: "c", Payload: hash, Expired: true, ExpiredAt: t1, CreatedAt: t3, Disabled: true, DisabledAt: t2}, {ID: "kid2", Prefix: "pr2"}},
		MfaTokens: []*identity.MfaToken{{ID: "tid", Type: "u2f", Algorithm: "sha1", Comment: "c", Secret: "s", Period: 60, Digits: 6, Expired: true, ExpiredAt: t1, CreatedAt: t3, Disabled: true, DisabledAt: t2,
			Device: &identity.MfaDevice{Name: "n", Vendor: "w", Type: "t"}, Parameters: map[string]string{"a": "b", "c": ""}, Flags: map[string]bool{"UP": true, "UV": false}, SignatureCounter: 1<<32 - 1}, {ID: "tid2"}},
		Lockout: &identity.LockoutState{Enabled: true, StartTime: t1, EndTime: t2},
		Avatar:  &identity.Image{Title: "face", Body: "iVBORw0KGgo=", Path: "/face.png", Config: image.Config{Width: 5, Height: 6}},
		Created: t3, LastModified: t2, Revision: 9, Roles: []*identity.Role{{Name: "r", Organization: "o"}, {Name: "s"}},
	}
}

func fullPolicy() identity.Policy {
	return identity.Policy{
		Password: identity.PasswordPolicy{KeepVersions: 4, MinLength: 9, MaxLength: 99, RequireUppercase: true, RequireLowercase: true, RequireNumber: true, RequireNonAlphaNumeric: true, BlockReuse: true, BlockPasswordChange: true},
		User:     identity.UserPolicy{MinLength: 2, MaxLength: 55, AllowNonAlphaNumeric: true, AllowUppercase: true},
	}
}

// C13_full: every field of the file format is read and written back.
func C13_full() {
	v.Bound("a fixed file with every field of every record set, one text of which is any 2 printable bytes without quotes; opened, changed by another user or just saved, and reopened")
	p := v.TempPath("db.json")
	x := v.Str("text", "alnum", 2)
	v.WriteFile(p, strings.Replace(fullFile, `"face"`, `"`+x+`"`, 1))
	want := fullUser()
	want.Avatar.Title = x
	before := v.SnapFile(p)
	db := reopen(p)
	v.Assert(v.Same(before, v.SnapFile(p)), "opening leaves a complete file")
	users := v.Full([]*identity.User{want})
	v.Assert(v.Same(v.Full(db.Users), users), "every field of a user is read")
	v.Assert(v.Same(v.Full(db.Policy), v.Full(fullPolicy())), "every field of the policy is read")
	v.Assert(db.Version == "1.1.6" && db.Revision == 1<<53+1 && db.LastModified.Equal(t0.Add(5)), "the header is read")
	if v.Choose("how", 2) == 0 {
		v.Assume(db.Save() == nil)
	} else {
		v.Assume(db.AddUser(newUser("zoe", goodPw, "zoe@x.io")) == nil)
	}
	alike(p, db)
	d := reopen(p)
	v.Assert(v.Same(v.Full(d.Users[:1]), users), "every field of a user is written back")
	v.Assert(v.Same(v.Full(d.Policy), v.Full(fullPolicy())), "every field of the policy is written back")
	v.Assert(d.Version == "1.1.6" && d.Revision == 1<<53+2, "the header is written back")
}

// fullFile is a database file of fullUser and fullPolicy.
const fullFile = `{
  "version": "1.1.6",
  "policy": {
    "password": {
      "keep_versions": 4,
      "min_length": 9,
      "max_length": 99,
      "require_uppercase": true,
      "require_lowercase": true,
      "require_number": true,
      "require_non_alpha_numeric": true,
      "block_reuse": true,
      "block_password_change": true
    },
    "user": {
      "min_length": 2,
      "max_length": 55,
      "allow_non_alpha_numeric": true,
      "allow_uppercase": true
    }
  },
  "revision": 9007199254740993,
  "last_modified": "2020-01-02T03:04:05.000000005Z",
  "users": [
    {
      "id": "00000000-0000-4000-8000-000000000001",
      "enabled": true,
      "human": true,
      "username": "Full",
      "title": "Dr",
      "name": {
        "first": "First",
        "last": "Last",
        "middle": "M",
        "preferred": "P",
        "nickname": true,
        "confirmed": true,
        "primary": true,
        "legal": true,
        "alias": true
      },
      "organization": {
        "id": 18446744073709551615,
        "name": "org",
        "aliases": [
          "o1",
          "o2"
        ]
      },
      "names": [
        {
          "first": "First",
          "last": "Last",
          "middle": "M",
          "preferred": "P",
          "nickname": true,
          "confirmed": true,
          "primary": true,
          "legal": true,
          "alias": true
        },
        {
          "first": "Only"
        }
      ],
      "organizations": [
        {
          "id": 18446744073709551615,
          "name": "org",
          "aliases": [
            "o1",
            "o2"
          ]
        },
        {
          "name": "other"
        }
      ],
      "street_address": [
        {
          "street": "s",
          "city": "c",
          "state": "t",
          "zip_code": "z",
          "confirmed": true,
          "current": true,
          "domicile": true,
          "residential": true,
          "commercial": true
        },
        {
          "city": "d"
        }
      ],
      "email_address": {
        "address": "full@x.io",
        "confirmed": true,
        "domain": "x.io"
      },
      "email_addresses": [
        {
          "address": "full@x.io",
          "confirmed": true,
          "domain": "x.io"
        },
        {
          "address": "f2@y.com",
          "domain": "y.com"
        }
      ],
      "passwords": [
        {
          "purpose": "generic",
          "algorithm": "bcrypt",
          "hash": "$2a$04$kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk",
          "cost": 12,
          "expired": true,
          "expired_at": "2020-02-03T03:04:05Z",
          "created_at": "2020-01-02T03:04:05.123456789Z",
          "disabled": true,
          "disabled_at": "2020-03-04T03:04:05Z"
        },
        {
          "purpose": "p",
          "algorithm": "bcrypt",
          "hash": "$2a$04$kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk",
          "expired_at": "0001-01-01T00:00:00Z",
          "created_at": "0001-01-01T00:00:00Z",
          "disabled_at": "0001-01-01T00:00:00Z"
        }
      ],
      "public_keys": [
        {
          "id": "pid",
          "usage": "ssh",
          "type": "ssh-rsa",
          "fingerprint": "fp",
          "fingerprint_md5": "md",
          "comment": "c",
          "payload": "p",
          "openssh": "o",
          "expired": true,
          "expired_at": "2020-02-03T03:04:05Z",
          "created_at": "2020-01-02T03:04:05.123456789Z",
          "disabled": true,
          "disabled_at": "2020-03-04T03:04:05Z"
        },
        {
          "id": "pid2",
          "expired_at": "0001-01-01T00:00:00Z",
          "created_at": "0001-01-01T00:00:00Z",
          "disabled_at": "0001-01-01T00:00:00Z"
        }
      ],
      "api_keys": [
        {
          "id": "kid",
          "prefix": "pre",
          "usage": "api",
          "comment": "c",
          "payload": "$2a$04$kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk",
          "expired": true,
          "expired_at": "2020-02-03T03:04:05Z",
          "created_at": "2020-01-02T03:04:05.123456789Z",
          "disabled": true,
          "disabled_at": "2020-03-04T03:04:05Z"
        },
        {
          "id": "kid2",
          "prefix": "pr2",
          "expired_at": "0001-01-01T00:00:00Z",
          "created_at": "0001-01-01T00:00:00Z",
          "disabled_at": "0001-01-01T00:00:00Z"
        }
      ],
      "mfa_tokens": [
        {
          "id": "tid",
          "type": "u2f",
          "algorithm": "sha1",
          "comment": "c",
          "secret": "s",
          "period": 60,
          "digits": 6,
          "expired": true,
          "expired_at": "2020-02-03T03:04:05Z",
          "created_at": "2020-01-02T03:04:05.123456789Z",
          "disabled": true,
          "disabled_at": "2020-03-04T03:04:05Z",
          "device": {
            "name": "n",
            "vendor": "w",
            "type": "t"
          },
          "parameters": {
            "a": "b",
            "c": ""
          },
          "flags": {
            "UP": true,
            "UV": false
          },
          "signature_counter": 4294967295
        },
        {
          "id": "tid2",
          "expired_at": "0001-01-01T00:00:00Z",
          "created_at": "0001-01-01T00:00:00Z",
          "disabled_at": "0001-01-01T00:00:00Z"
        }
      ],
      "lockout": {
        "enabled": true,
        "start_time": "2020-02-03T03:04:05Z",
        "end_time": "2020-03-04T03:04:05Z"
      },
      "avatar": {
        "title": "face",
        "body": "iVBORw0KGgo=",
        "config": {
          "ColorModel": null,
          "Width": 5,
          "Height": 6
        },
        "path": "/face.png"
      },
      "created": "2020-01-02T03:04:05.123456789Z",
      "last_modified": "2020-03-04T03:04:05Z",
      "revision": 9,
      "roles": [
        {
          "name": "r",
          "organization": "o"
        },
        {
          "name": "s"
        }
      ]
    }
  ]
}
`
